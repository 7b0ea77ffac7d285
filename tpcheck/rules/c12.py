from .codec import *
from . import srv

EXPLANATION = """
Each serializer's hook is interpreted, in the state its dumps leaves behind, on values of every kind and on unknown values
under the assumption that their type is not allowed: with a server given, the server of the thread, and none.  Every path
must write exactly what it writes for the proxy that this server made of the value, with no other occurrence of the value,
or raise TypeError when there is no server.  Every place where client and server serialize must name the right server and
the types the user allowed, and a result requested as a proxy must be replied as the server's proxy of the result.
"""
ASSUMPTIONS = ['values of types the library itself can write never reach the hook']


def check(ctx):
    pc = cls(ctx, 'ObjectProxy')
    sv = cls(ctx, 'RPCServer')
    for c in serializers(ctx):
        if c.enc is None:
            ctx.fail('C12.hook', c.ci.name, c.ci.key, 'the library is not given a hook for values of other types')
            continue
        if c.lib == 'msgpack':
            v = c.dump_kw.get('strict_types')
            ctx.check(v is TRUE, 'C12.hook', '%s: subclasses of native types' % c.ci.name, c.dump_call.where,
                      'without strict_types (here %s) values of subclasses of native types are copied without asking whether their type is allowed' % (short(v) if v is not None else 'unset'))
        hooks(ctx, c, pc, sv)
    client_side(ctx)
    server_side(ctx)
    auto_result(ctx)
    ctx.require('C12.by-proxy', 40)
    ctx.require('C12.refused', 20)
    ctx.require('C12.client', 1)
    ctx.require('C12.server', 2)
    ctx.require('C12.proxy-result', 1)


def hook_for(thread):
    def hook(ip, st, fv, args, kwargs, node, fr):
        if fv.op == 'func' and fv.args[0].endswith(':RPCServer.get_server') or \
                (fv.op == 'bound' and fv.args[0].op == 'func' and fv.args[0].args[0].endswith(':RPCServer.get_server')):
            return [(st, thread)]
        return None
    return hook


def hooks(ctx, c, pc, sv):
    given = mk('sym', 'given server', sv.key)
    own = mk('sym', 'server of the thread', sv.key)
    px = mk('sym', 'made proxy', pc.key)

    def result(ev, st):
        return px if ev.name.endswith('.get_proxy') else None
    vals = [('unknown', sym('value'))] + [(k, mk('sym', 'value', t)) for k, t in kinds(ctx).items() if k != 'NoneType' and not (c.lib == 'msgpack' and k == 'bytes')
                                          and not (c.lib == 'json' and k == 'tuple')]
    T = sym('allowed types')
    for case, g, thread, want in (('given', given, own, given), ('thread', NONE, own, own), ('none', NONE, NONE, None)):
        for dp, st0 in c.after('dumps', server=g, serialize_types=T):
            types = {v for k, v in st0.heap.items() if k[0] is c.so and k[1] == 'a'}
            ctx.check(T in types if st0.facts.get(mk('truth', T)) is not False else True, 'C12.types', c.ci.name, c.method('dumps').key,
                      'the types allowed by the caller are not used')
            for k, v in vals:
                st = st0.fork()
                c.state(False, v, k, st)
                for x in (given, own, px):
                    st.facts[mk('isnone', x)] = False
                for x in types:
                    st.facts[mk('isinst', v, x)] = False
                n = 0
                want_wire = None
                ip, ps = c.run(c.enc, v, st, record=lambda e: e.kind == 'call' and e.name.endswith('.get_proxy'), result=result, hook=hook_for(thread))
                for p in ps:
                    if absent(p.facts) or any(b is True and f.op == 'isinst' and f.args[0] is v and f.args[1] in types for f, b in p.facts.items()):
                        continue
                    n += 1
                    what = '%s: %s' % (c.ci.name, k)
                    if want is None:
                        ok = p.kind == 'raise' and p.val.op == 'exc' and is_type_error(p.val)
                        ctx.check(ok, 'C12.refused', what, c.enc[0].key, 'without a server, a %s that is not allowed %s' % (
                            k, 'is sent as %s' % short(ip.freeze(p.st, p.val)) if p.kind == 'return' else 'raises ' + short(p.val)))
                        continue
                    mades = [e for e in flat(p.trace) if e.kind == 'call' and e.name.endswith('.get_proxy')]
                    ok = len(mades) == 1 and mades[0].recv is want and mades[0].args[:1] == (v,) and p.kind == 'return'
                    w = ip.freeze(p.st, p.val) if p.kind == 'return' else p.val
                    ctx.check(ok, 'C12.by-proxy', what, c.enc[0].key, 'a %s that is not allowed (server %s) %s' % (
                        k, case, 'is sent as %s' % short(w) if not mades else 'is made a proxy by %s' % ', '.join(short(e.recv) if e.recv else '?' for e in mades)))
                    if ok:
                        ctx.check(not mentions(w, v), 'C12.content', what, c.enc[0].key, 'what is sent for it is %s' % short(w))
                        if want_wire is None:
                            want_wire = proxy_wires(c, px, st0)
                        ctx.check(w in want_wire, 'C12.content', what + ' (proxy)', c.enc[0].key, 'what is sent is %s, not the proxy' % short(w))
                if not n:
                    raise AnalysisBroken('%s: no path for a %s that is not allowed' % (c.ci.name, k))


def is_type_error(v):
    return 'TypeError' in str(v.args[0]) or v.args[0] == 'TypeError'


def proxy_wires(c, px, st0):
    st = st0.fork()
    for k, v in list(st.heap.items()):
        if k[0] is c.so and k[1] == 'a':
            st.facts[mk('isinst', px, v)] = True
    st.facts[mk('isnone', px)] = False
    ip, ps = c.run(c.enc, px, st)
    return {ip.freeze(p.st, p.val) for p in ps if p.kind == 'return'}


# ---- where values are serialized
def given_types(ctx, key, so, t, param='serialize_types'):
    """Does t come from what the constructor of this class was given as allowed types?"""
    fields = set()
    fi = ctx.p.find_method(key, '__init__')
    ip = ctx.interp(RP(kinds={'write'}, raising=False, opaque=lambda f: f.module.name != key.split(':')[0]))
    for p in ip.run(fi, self_val=so):
        for e in flat(p.trace):
            if e.kind == 'write' and e.recv is so and e.value is not None and mentions(e.value, lambda x: x.op == 'sym' and str(x.args[0]).split('.')[-1] == param):
                fields.add(e.name)
    if not fields:
        return False
    src = [x for x in subterms(t) if x.op == 'attr' and x.args[0] is so and x.args[1] in fields]
    rest = [a for a in alts(t) if not any(mentions(a, s) for s in src)]
    return bool(src) and all(mentions(a, lambda x: 'default_serialize_types' in str(x.args)) for a in rest)


def dump_args(ctx, e):
    """{parameter: value} of a call of a serializer's dumps/loads."""
    base = cls(ctx, 'Serializer')
    fi = ctx.p.find_method(base.key, e.name.lstrip('.').split('.')[-1])
    ps = [x.arg for x in fi.node.args.args][1:]
    r = dict(zip(ps, e.args))
    r.update(dict(e.kwargs))
    return r


def client_side(ctx):
    ck = cls(ctx, 'RPCClient')
    so = mk('obj', ck.key, 'sym')
    fi = ctx.p.find_method(ck.key, 'send')
    if fi is None:
        raise AnalysisBroken('anchor vanished: RPCClient.send')
    ip = ctx.interp(RP(names={'.dumps'}, raising=False, record=lambda e: e.kind == 'call' and e.name.endswith('.dumps'), opaque=lambda f: f.module.name != 'teleprox.client'))
    for p in ip.run(fi, self_val=so):
        for e in flat(p.trace):
            if e.kind == 'call' and e.name.endswith('.dumps'):
                a = dump_args(ctx, e)
                s = a.get('server')
                ok = s is not None and all(x is NONE or (x.op == 'call' and 'RPCServer.get_server' in x.args[0]) for x in alts(s))
                ctx.check(ok, 'C12.client', 'server of a request', e.where, 'the values of a request are made proxies of %s' % (short(s) if s is not None else 'nothing'))
                t = a.get('serialize_types')
                ctx.check(t is not None and given_types(ctx, ck.key, so, t), 'C12.client', 'types of a request', e.where,
                          'the types allowed in a request are %s, not those the client was created with' % (short(t) if t is not None else 'unset'))


def server_side(ctx):
    sv = cls(ctx, 'RPCServer')
    opaque = lambda f: f.module.name not in srv.SERVER_MODULES or f.name == 'get_proxy'
    make = lambda: srv.policy(kinds=('setitem',), names={'()', '.dumps', '.loads'}, opaque=opaque)
    segs = []
    for e, (paths, ss) in srv.plain_segments(ctx, make=make).items():
        segs.extend(ss)
    _, psegs, qs = srv.qt_segments(ctx, make=make)
    segs.extend(qs)
    types_ok = {}
    for s in segs:
        kind = None
        for c, b in s.facts.items():
            if c.op == 'eq' and b is True and any(is_const(x) and cval(x) in ('proxy', b'proxy') for x in c.args) and any(mentions(x, s.parts) for x in c.args):
                kind = 'proxy'
        result = None
        for ev in flat(s.events):
            if ev.kind == 'call' and ev.name == '.dumps':
                for d in [x for x in (ev.args[:1] or ())]:
                    m, unk = dict_of(d) if d.op == 'dict' else ({}, True)
                    if 'rval' not in m:
                        continue
                    a = dump_args(ctx, ev)
                    sr = a.get('server')
                    ctx.check(sr is s.srv, 'C12.server', 'server of a reply', ev.where, 'the values of a reply are made proxies of %s' % (short(sr) if sr is not None else 'nothing'))
                    t = a.get('serialize_types')
                    if t not in types_ok:
                        types_ok[t] = t is not None and given_types(ctx, sv.key, s.srv, t)
                    ctx.check(types_ok[t], 'C12.server', 'types of a reply', ev.where, 'the types allowed in a reply are %s, not those the server was created with' % (short(t) if t is not None else 'unset'))
                    e = m.get('error')
                    if kind == 'proxy' and (e is None or e is NONE):
                        for v in alts(m['rval']):
                            ok = (v.op == 'obj' and 'Proxy' in str(v.args[0])) or (v.op == 'call' and v.args[0].endswith('.get_proxy') and v.args[1] in (s.srv, None)) or \
                                is_px_alloc(ctx, v)
                            ctx.check(ok, 'C12.proxy-result', ev.fn, ev.where, 'a result requested as a proxy is replied as %s' % short(v))


def auto_result(ctx):
    """A result of automatic return type is replied as itself only if its type is one of those allowed."""
    ci = cls(ctx, 'RPCServer')
    fi = ctx.p.find_method(ci.key, '_process_one')
    if fi is None:
        raise AnalysisBroken('RPCServer._process_one is not there')
    T = (ext('first type'), ext('second type'))
    result = sym('result of the action')
    par = [a.arg for a in fi.node.args.args][-1]
    rid = sym('req_id')
    msg = mk('dict', *[(const(k), v) for k, v in (('req_id', rid), ('action', const('call_obj')), ('return_type', const('auto')), ('ser_type', sym('ser_type')), ('opts', sym('opts')))])
    n = 0
    for given in ((False, False), (True, False), (False, True)):
        ip = ctx.interp(RP(names={'.dumps', '@RPCServer.get_proxy'}, raises=lambda e, st: (), merge=False,
                           result=lambda ev, st: result if ev.name == '@RPCServer.process_action' else None,
                           opaque=lambda g: g.module.name not in srv.SERVER_MODULES or g.name in ('process_action', 'get_proxy')))
        so = ip.self_obj(ci.key)
        st = State()
        for f in type_fields(ctx, ci):
            st.heap[(so, 'a', f)] = mk('tuple', *T)
        for t, b in zip(T, given):
            st.facts[mk('isinst', result, t)] = b
        for p in ip.run(fi, self_val=so, args={par: msg}, st=st):
            for e in flat(p.trace):
                if e.kind != 'call' or e.name != '.dumps' or not e.args or e.args[0].op != 'dict':
                    continue
                m, unk = dict_of(e.args[0])
                if 'rval' not in m or m.get('error') not in (None, NONE):
                    continue
                for v in alts(m['rval']):
                    n += 1
                    ctx.check(v.op == 'call' and v.args[0].endswith('get_proxy') or any(given) and v is result, 'C12.auto-result', 'result of automatic return type', e.where,
                              'a result whose type is%s allowed is replied as %s' % ('' if any(given) else ' not', short(v)))
    if not n:
        raise AnalysisBroken('no result of automatic return type is replied')


def type_fields(ctx, ci):
    fi = ctx.p.find_method(ci.key, '__init__')
    fs = set()
    so = mk('obj', ci.key, 'sym')
    ip = ctx.interp(RP(kinds={'write'}, raising=False, opaque=lambda f: f.module.name != ci.key.split(':')[0]))
    for p in ip.run(fi, self_val=so):
        for e in flat(p.trace):
            if e.kind == 'write' and e.recv is so and e.value is not None and mentions(e.value, lambda x: x.op == 'sym' and str(x.args[0]).split('.')[-1] == 'serialize_types'):
                fs.add(e.name)
    if not fs:
        raise AnalysisBroken('the types the server was created with are not kept')
    return fs


def is_px_alloc(ctx, v):
    return v.op == 'call' and 'ObjectProxy' in str(v.args[0])
