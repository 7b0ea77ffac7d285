from .base import *
from .cli import *

EXPLANATION = """
The path from calling a proxy to handing the request to the socket is enumerated through proxy and client, once per
synchronisation mode and per origin of each option (keyword or proxy default): the transmitted options must hold the
proxy itself, exactly the positional arguments, and the keyword arguments without the reserved ones; return type,
wait and returned value must follow the effective options; an unknown mode must raise with nothing transmitted.  On
the server, the callable must be invoked with exactly the received arguments.
"""
ASSUMPTIONS = ['the serializer transfers the request intact (C11, C12)']
WAITS = ('@RPCClient.process_until_future', '@Future.result', '.result', '.wait')
CHANGES = ('.pop', '.clear', '.update', '.popitem', '.setdefault', '.__setitem__', '.__delitem__')
OPTS = ('_sync', '_return_type', '_timeout')


def hook_client(ctx, ci):
    cobj = self_of(ci)

    def hook(ip, st, fv, args, kwargs, node, fr):
        if fv.op == 'bound' and fv.args[0].op == 'func' and fv.args[0].args[0].endswith(':ObjectProxy._client'):
            return [(st, cobj)]
        f = fv.args[0] if fv.op == 'bound' else fv
        if f.op == 'func' and f.args[0].endswith(':RPCClient.get_client'):
            return [(st, cobj)]
        return None
    return hook, cobj


def check(ctx):
    ci = client(ctx)
    pc = cls(ctx, 'ObjectProxy')
    hook, cobj = hook_client(ctx, ci)
    self = mk('obj', pc.key, 'sym')
    fi = method(ctx, pc, '__call__')
    a = fi.node.args
    if a.vararg is None or a.kwarg is None:
        ctx.fail('C13.signature', 'ObjectProxy.__call__', fi.key, 'does not accept every argument')
        return
    vargs, kws = sym('*' + a.vararg.arg), sym('**' + a.kwarg.arg)
    dflt = lambda n: mk('item', mk('attr', self, '_proxy_options'), const(n))
    def seen(e):
        if e.kind == 'call' and e.name in ('.send_multipart', '.dumps', '@RPCClient.process_until_future'):
            return True
        # changes of the keyword arguments and of the proxy's own options
        return e.recv is not None and (e.kind in ('setitem', 'del', 'write') or e.kind == 'call' and e.name in CHANGES) and (
            mentions(e.recv, kws) or mentions(e.recv, self))
    make = lambda: RP(record=seen, hook=hook, raises=lambda ev, st: (),
                      opaque=lambda f: f.module.name not in ('teleprox.client', 'teleprox.proxy') or f.name == 'process_until_future',
                      split=lambda x: mentions(x, kws) or mentions(x, vargs), max_states=2000)
    cases = []
    for origin in ('keyword', 'default'):
        s = mk('item', kws, const('_sync')) if origin == 'keyword' else dflt('sync')
        for mode in ('sync', 'async', 'off', 'invalid'):
            cases.append((origin, s, mode))
    for origin, s, mode in cases:
        facts = [(mk('in', const('_sync'), kws), origin == 'keyword')]
        for m in ('sync', 'async', 'off'):
            facts.append((eq_atom(s, const(m)), m == mode))
        for n in ('sync', 'return_type', 'timeout'):
            facts.append((mk('in', const(n), mk('attr', self, '_proxy_options')), True))
        st = assumed(State(), facts)
        st.heap[(cobj, 'a', '_disconnected')] = FALSE
        if mode != 'invalid':
            st.facts[mk('=', s)] = const(mode)
        what = '%s mode from %s' % (mode, origin)
        npaths = 0
        for p in ctx.interp(make()).run(fi, self_val=self, st=st):
            npaths += 1
            one(ctx, p, what, mode, self, kws, vargs, dflt)
        if not npaths:
            raise AnalysisBroken('no path for a call in ' + what)
    other_actions(ctx, ci)
    ctx.require('C13.args', 12)
    ctx.require('C13.kwargs', 12)
    ctx.require('C13.invalid-mode', 2)
    server_side(ctx)


def kept(ctx, p, what, self, kws):
    """Only the reserved options are taken from the keyword arguments, and the proxy's own options stay as they are."""
    for e in flat(p.trace):
        if e.recv is None or e.name in ('.send_multipart', '.dumps'):
            continue
        key = e.args[0] if e.args else None
        if e.recv is kws:
            ok = key is not None and is_const(key) and cval(key) in OPTS and e.kind != 'setitem' and e.name not in ('.setdefault', '.clear', '.update', '.popitem')
            ctx.check(ok, 'C13.kwargs', 'keyword arguments (%s)' % what, e.where, 'the keyword argument %s is removed or changed' % (short(key) if key is not None else 'of any name'))
        elif e.recv is mk('attr', self, '_proxy_options') or e.kind == 'write' and e.recv is self and e.name == '_proxy_options':
            ctx.fail('C13.option', 'options of the proxy (%s)' % what, e.where, 'the options of a call are stored in the proxy, for later calls')


def one(ctx, p, what, mode, self, kws, vargs, dflt):
    kept(ctx, p, what, self, kws)
    ss = sends(p)
    wh = ss[0].where if ss else 'ObjectProxy.__call__'
    if mode == 'invalid':
        ctx.check(p.kind == 'raise' and not ss, 'C13.invalid-mode', 'unknown %s' % what, wh,
                  'a call with an unknown synchronisation mode is %s' % ('transmitted' if ss else 'accepted'))
        return
    if p.kind == 'raise':
        ctx.fail('C13.accepted', 'call in %s' % what, exc_where(p.val)[1], 'a call in a valid mode raises %s' % short(p.val))
        return
    if not ctx.check(len(ss) == 1, 'C13.one-request', 'call in %s' % what, wh, '%d requests are transmitted for a call' % len(ss)):
        return
    ev = ss[0]
    fr = request_frames(ev)
    if not ctx.check(fr is not None and len(fr) == 5, 'C13.frames', 'request frames', wh, 'frames: %s' % short(ev.args[0] if ev.args else None)):
        return
    ctx.check(unencode(fr[1]) is const('call_obj'), 'C13.action', 'call in %s' % what, wh, 'action %s' % short(fr[1]))
    given = lambda n: p.facts.get(mk('in', const('_' + n), kws))

    def option(n, got, rule):
        g = given(n)
        exp = [mk('item', kws, const('_' + n))] if g is True else [dflt(n)] if g is False else None
        if exp is None:
            exp = [mk('item', kws, const('_' + n)), dflt(n)]
            ok = set(alts(got)) == set(exp) if got is not None else False
        else:
            ok = got is exp[0]
        ctx.check(ok, rule, '%s of a call (%s)' % (n, {True: 'given', False: 'default', None: 'either'}[g]), wh,
                  '%s is %s' % (n, short(got) if got is not None else 'not used'))
    option('return_type', unencode(fr[2]), 'C13.option')
    rid = plain_number(fr[0])
    noreply = is_const(rid) and isinstance(cval(rid), int) and cval(rid) < 0
    waits = [e for e in flat(p.trace) if e.name == '@RPCClient.process_until_future']
    if mode == 'off':
        ctx.check(noreply, 'C13.off', 'id in %s' % what, wh, "a call in 'off' mode asks for a reply (id %s)" % short(rid))
        ctx.check(p.val is NONE and not waits, 'C13.off', 'result in %s' % what, wh, "a call in 'off' mode returns %s" % short(p.val))
    else:
        ctx.check(not noreply, 'C13.reply', 'id in %s' % what, wh, 'no reply is asked for')
        if mode == 'async':
            ctx.check(not waits and p.val.op in ('obj', 'call') and str(p.val.args[0]).endswith('Future'), 'C13.async', 'result in %s' % what, wh,
                      "a call in 'async' mode %s" % ('waits' if waits else 'returns %s' % short(p.val)))
        else:
            ok = len(waits) >= 1
            had = not ok and p.val.op == 'call' and p.val.args[1] is not None and is_done(p, p.val.args[1])     # it has its result before any wait
            ctx.check((ok or had) and p.val.op == 'call' and p.val.args[0].endswith('result') and (had or mentions(p.val, waits[0].args[0])), 'C13.sync', 'result in %s' % what, wh,
                      "a call in 'sync' mode %s, returning %s" % ('waits' if ok else 'does not wait', short(p.val)))
            if ok:
                t = waits[0].kw('timeout')
                if t is None and len(waits[0].args) > 1:
                    t = waits[0].args[1]
                option('timeout', t, 'C13.option')
    # content
    pay = fr[4]
    good = pay.op == 'call' and pay.args[0] == '.dumps' and pay.args[2]
    if not ctx.check(bool(good), 'C13.payload', 'payload of a call', wh, 'payload is %s' % short(pay)):
        return
    d = pay.args[2][0]
    for v in flatset(vals_of(d, 'obj')):
        ctx.check(v is self, 'C13.callable', 'callable of a call', wh, 'the request is for %s' % (short(v) if v is not None else 'nothing'))
    for v in flatset(vals_of(d, 'args')):
        empty = implies_empty(p.facts, vargs)
        if v is None and empty:
            continue        # left out when there are none
        ok = v is vargs or (v is not None and v.op in ('tuple', 'list') and len(v.args) == 1 and v.args[0].op == 'star' and v.args[0].args[0] is vargs) or \
            (v is not None and v.op in ('tuple', 'list') and not v.args and empty)
        ctx.check(ok, 'C13.args', 'positional arguments (%s)' % what, wh, 'the positional arguments are sent as %s' % (short(v) if v is not None else 'nothing'))
    for v in flatset(vals_of(d, 'kwargs')):
        if v is None and nothing_left(p, kws, given):
            continue
        ctx.check(kwargs_ok(p, v, kws, given), 'C13.kwargs', 'keyword arguments (%s)' % what, wh, 'the keyword arguments are sent as %s' % (short(v) if v is not None else 'nothing'))


def other_actions(ctx, ci):
    """What the modes mean does not depend on the action."""
    fi = method(ctx, ci, 'send')
    names = [x.arg for x in fi.node.args.args]
    if 'sync' not in names or 'action' not in names:
        raise AnalysisBroken('RPCClient.send has no parameters action and sync')
    for mode in ('async', 'off'):
        ip = ctx.interp(RP(names=WAITS + ('.send_multipart', '.dumps'), raises=lambda ev, st: (), max_states=2000,
                           opaque=lambda f: f.module.name != 'teleprox.client' or f.name in ('process_until_future', 'result')))
        so = self_of(ci)
        st = State()
        st.heap[(so, 'a', '_disconnected')] = FALSE
        n = 0
        for p in ip.run(fi, self_val=so, args={'sync': const(mode)}, st=st):
            if p.kind != 'return':
                continue
            n += 1
            waits = [e for e in flat(p.trace) if e.name in WAITS]
            ctx.check(not waits and (mode == 'off') == (p.val is NONE) and (mode == 'off' or 'result' not in str(p.val.args[0])), 'C13.' + mode, 'any request in %s mode' % mode,
                      waits[0].where if waits else fi.key, "a request in '%s' mode %s" % (mode, 'waits for the response' if waits else 'returns %s' % short(p.val)))
        if not n:
            raise AnalysisBroken('no request can be sent in mode ' + mode)


def kwargs_ok(p, v, kws, given):
    if v is None:
        return False
    gone = set()
    x = v
    while x.op == 'upd' or (x.op == 'dict' and len(x.args) >= 1):
        if x.op == 'upd':
            for k, y in x.args[1]:
                if not is_const(k) or y is not DELETED or cval(k) not in OPTS:
                    return False
                gone.add(cval(k))
            x = x.args[0]
        else:
            stars = [y for k, y in x.args if k is STARSTAR]
            rest = [(k, y) for k, y in x.args if k is not STARSTAR]
            if len(stars) != 1:
                return False
            for k, y in rest:
                if y is not DELETED or not is_const(k) or cval(k) not in OPTS:
                    return False
                gone.add(cval(k))
            x = stars[0]
    if x is kws:
        return all(o in gone or given(o[1:]) is False for o in OPTS)
    if x.op == 'dict' and not x.args:
        # nothing left: the emptiness of the remaining arguments must have been tested
        return implies_empty(p.facts, kws)
    return False


def nothing_left(p, kws, given):
    """Is what is left of the keyword arguments known to be empty?"""
    if implies_empty(p.facts, kws):
        return True
    for c, b in p.facts.items():
        if b is False and c.op == 'truth' and kwargs_ok(p, c.args[0], kws, given):
            return True
    return False


def server_side(ctx, rule='C13'):
    sc = cls(ctx, 'RPCServer')
    fi = method(ctx, sc, 'process_action')
    names = [x.arg for x in fi.node.args.args][1:]
    opts = sym('opts')
    n = 0
    fargs, fkw = mk('item', opts, const('args')), mk('item', opts, const('kwargs'))
    st = State()
    for k in ('obj', 'args', 'kwargs'):
        st.facts[mk('in', const(k), opts)] = True
    ip = ctx.interp(RP(names={'()'}, opaque=lambda f: f.module.name != 'teleprox.server', raises=lambda ev, st: None))
    for p in ip.run(fi, st=st, args={names[0]: const('call_obj'), names[1]: opts}):
        cs = [e for e in flat(p.trace) if e.kind == 'call' and e.name == '()']
        if p.kind == 'raise' and not cs:
            continue
        n += 1
        ok = len(cs) == 1
        ctx.check(ok, rule + '.invoked-once', 'server invokes the callable', fi.key, 'the callable is invoked %d times' % len(cs))
        for e in cs:
            fv = e.recv
            ctx.check(fv is mk('item', opts, const('obj')), rule + '.invoked', 'what the server invokes', e.where, 'the server invokes %s' % (short(fv) if fv is not None else e))
            a = list(e.args)
            ctx.check(len(a) == 1 and a[0].op == 'star' and a[0].args[0] is fargs, rule + '.invoked-args', 'positional arguments of the remote call', e.where,
                      'the callable is invoked with %s' % [short(x) for x in a])
            kw = [(k, v) for k, v in e.kwargs]
            if not kw:
                ctx.check(implies_empty(p.facts, fkw), rule + '.invoked-kwargs', 'call without keywords', e.where, 'the callable is invoked without the keyword arguments')
            else:
                ctx.check(len(kw) == 1 and kw[0][1] is fkw, rule + '.invoked-kwargs', 'keyword arguments of the remote call', e.where,
                          'the keyword arguments are %s' % [(str(k), short(v)) for k, v in kw])
        if p.kind == 'return':
            ctx.check(p.val is cs[-1].value if cs else False, rule + '.invoked-result', 'result of the remote call', fi.key, '%s is returned' % short(p.val))
    if n < 1:
        raise AnalysisBroken('call_obj is not handled')
