from .codec import *
from . import srv
from .c09 import resolve

EXPLANATION = """
A proxy with symbolic state is written by each serializer's hook and read by its counterpart (path tuple as tuple and as
list), and its pickled state is exported and restored: on every path the five identity fields must arrive unchanged.  The
reader, interpreted with no server, with the thread's server and with a given server, must hand the proxy to that server's
unwrap_proxy exactly when the proxy's address equals the server's, and otherwise return a proxy to which the default proxy
options have been applied; unwrap_proxy must start from the entry of that object and apply the pending lookups in order.  Client and server must read messages with the server and the options that make this true.
"""
ASSUMPTIONS = ['the table of objects has the right entry (C06)']

WIRES = ('rpc_addr', 'obj_id', 'ref_id', 'type_str', 'attributes')


def base_state(ctx, pc, so=None):
    so, st, vals, F, fields = made(ctx, pc, so=so)
    addr = mk('sym', 'proxy address', 'ext:bytes')
    st.heap[(so, 'a', F['rpc_addr'])] = addr
    fields['rpc_addr'] = addr
    return so, st, vals, F, fields


def seq_root(t):
    """A sequence without copies as tuple or list."""
    while True:
        if t.op in ('tuple', 'list') and len(t.args) == 1 and t.args[0].op == 'star':
            t = t.args[0].args[0]
        elif t.op == 'star':
            t = t.args[0]
        elif t.op == 'call' and t.args[0] in ('tuple', 'list') and len(t.args[2]) == 1:
            t = t.args[2][0]
        else:
            return t


def same_fields(ctx, ip, st, obj, F, fields, rule, what, where):
    for w in WIRES:
        if w not in F:
            continue
        v = st.heap.get((obj, 'a', F[w]))
        v = ip.freeze(st, v) if v is not None else None
        if w == 'attributes':
            ok = v is not None and seq_root(v) is fields[w] and v.op in ('tuple', 'sym', 'call', 'attr')
        elif w == 'rpc_addr':
            ok = v is not None and roots(v) == {fields[w]} and ip.type_of(st, v) == 'ext:bytes'
        else:
            ok = v is not None and roots(v) == {fields[w]}
        ctx.check(ok, rule, '%s: %s' % (what, w), where, 'the %s of the proxy arrives as %s' % (w, short(v) if v is not None else 'nothing'))


def check(ctx):
    pc = cls(ctx, 'ObjectProxy')
    sv = cls(ctx, 'RPCServer')
    _, _, _, F, _ = made(ctx, pc)
    for w in WIRES:
        if w not in F:
            raise AnalysisBroken('field %s of a proxy is not found' % w)
    pickled(ctx, pc)
    for c in serializers(ctx):
        if c.enc is None or c.dec is None:
            ctx.fail('C10.hook', c.ci.name, c.ci.key, 'the library is not given the hooks')
            continue
        transfer(ctx, c, pc, sv)
        unknown_object(ctx, c, pc, sv)
    readers(ctx)
    resolve(ctx, pc, 'C10.unwrap')
    ctx.require('C10.pickle', 5)
    ctx.require('C10.fields', 20)
    ctx.require('C10.owner', 8)
    ctx.require('C10.options', 4)
    ctx.require('C10.reader', 2)


def pickled(ctx, pc):
    so, st, vals, F, fields = base_state(ctx, pc)
    pol = lambda: RP(raising=False, opaque=boundary, merge=False)
    red = None
    for n, arg in (('__reduce_ex__', const(4)), ('__reduce__', None)):
        fi = ctx.p.find_method(pc.key, n)
        if fi is not None and red is None:
            red = (fi, {fi.node.args.args[1].arg: arg} if arg is not None and len(fi.node.args.args) > 1 else {})
    n = 0
    if red is not None:
        ip = ctx.interp(pol())
        for p in ip.run(red[0], self_val=so, args=red[1], st=st.fork()):
            v = ip.freeze(p.st, p.val) if p.kind == 'return' else None
            if v is None or v.op != 'tuple' or len(v.args) < 2 or v.args[1].op != 'tuple':
                ctx.fail('C10.pickle', red[0].name, red[0].key, 'pickling gives %s' % short(p.val))
                continue
            for ip2, p2 in rebuild(ctx, pc, v, p.st, pol):
                n += 1
                if p2.kind != 'return':
                    ctx.fail('C10.pickle', red[0].name, red[0].key, 'unpickling raises %s' % short(p2.val))
                    continue
                for o in alts(p2.val):
                    same_fields(ctx, ip2, p2.st, o, F, fields, 'C10.pickle', 'pickled', red[0].key)
    else:
        get, put = ctx.p.find_method(pc.key, '__getstate__'), ctx.p.find_method(pc.key, '__setstate__')
        if get is None or put is None:
            raise AnalysisBroken('a proxy has no __getstate__/__setstate__')
        ip = ctx.interp(pol())
        for p in ip.run(get, self_val=so, st=st.fork()):
            v = ip.freeze(p.st, p.val) if p.kind == 'return' else None
            if v is None:
                ctx.fail('C10.pickle', '__getstate__', get.key, 'the state of a proxy raises %s' % short(p.val))
                continue
            new = mk('obj', pc.key, 'unpickled')
            st2 = State()
            st2.facts.update(p.facts)
            a = v
            if v.op == 'dict':
                a = mk('alloc', 'dict', 'pickled state', 0)
                st2.heap[(a, 'map', None)] = mk('content', *v.args)
            ip2 = ctx.interp(pol())
            for p2 in ip2.run(put, self_val=new, args={put.node.args.args[1].arg: a}, st=st2):
                n += 1
                if p2.kind != 'return':
                    ctx.fail('C10.pickle', '__setstate__', put.key, 'restoring a proxy raises %s' % short(p2.val))
                    continue
                same_fields(ctx, ip2, p2.st, new, F, fields, 'C10.pickle', 'pickled', put.key)
    if not n:
        raise AnalysisBroken('pickling a proxy is not understood')


def rebuild(ctx, pc, v, st, pol):
    f, args = v.args[0], list(v.args[1].args)
    st = st.fork()
    if f.op == 'cls' and f.args[0] == pc.key:
        init = ctx.p.find_method(pc.key, '__init__')
        new = mk('obj', pc.key, 'unpickled')
        ps = [x.arg for x in init.node.args.args][1:]
        ip = ctx.interp(pol())
        kw = {init.node.args.kwarg.arg: mk('dict')} if init.node.args.kwarg else {}
        for p in ip.run(init, self_val=new, args=dict(list(zip(ps, args)) + list(kw.items())), st=st):
            if p.kind == 'return':
                p.val = new
            yield ip, p
        return
    key = f.args[0] if f.op == 'func' else (f.args[0].args[0] if f.op == 'bound' else None)
    fi = ctx.p.funcs.get(key)
    if fi is None:
        raise AnalysisBroken('a proxy is unpickled by %s' % short(f))
    ps = [x.arg for x in fi.node.args.args]
    if f.op == 'bound':
        ps = ps[1:]
    ip = ctx.interp(pol())
    for p in ip.run(fi, self_val=f.args[1] if f.op == 'bound' else None, args=dict(zip(ps, args)), st=st):
        yield ip, p


def transfer(ctx, c, pc, sv):
    from .c12 import hook_for
    given = mk('sym', 'given server', sv.key)
    own = mk('sym', 'server of the thread', sv.key)
    so, st, vals, F, fields = base_state(ctx, pc)
    s = c.prepared()
    s.heap.update(st.heap)
    s.facts.update(st.facts)
    c.state(True, so, None, s)
    wires = [(p, w) for ip, p, w in c.encode(so, s)]
    for p, w in wires:
        if w is None or w.op != 'dict':
            ctx.fail('C10.fields', c.ci.name, c.enc[0].key, 'a proxy is written as %s' % short(p.val))
            continue
        for k, v in w.args:
            if c.lib == 'json' and not is_const(v) and c_bytes(v):
                ctx.fail('C10.fields', '%s: %s' % (c.ci.name, short(k)), c.enc[0].key, 'bytes are given to json: %s' % short(v))
    opt = sym('receiver timeout')
    other = sym('receiver defer_getattr')
    for case, g, thread, want in (('given', given, own, given), ('thread', NONE, own, own), ('none', NONE, NONE, None)):
        for opts, kind in ((mk('dict', (const('timeout'), opt), (const('defer_getattr'), other)), 'options'), (NONE, 'no options'), (mk('dict'), 'empty options')):
            for lp, ls in c.after('loads', server=g, proxy_opts=opts):
                for p, w in wires:
                    if w is None or w.op != 'dict':
                        continue
                    for conv in ('tuple', 'list'):
                        pairs = []
                        for k, v in w.args:
                            if is_const(k) and cval(k) == 'attributes' or seq_root(v) is fields['attributes']:
                                v = mk(conv, mk('star', seq_root(v)))
                            pairs.append((k, v))
                        st2 = ls.fork()
                        st2.facts.update({k: v for k, v in p.facts.items()})
                        for x in (given, own):
                            st2.facts[mk('isnone', x)] = False
                        for ip2, p2 in c.decode(pairs, p.facts, st=st2, hook=hook_for(thread), record=unwraps):
                            received(ctx, c, pc, ip2, p2, case, want, kind, opt, other, F, fields)


def unknown_object(ctx, c, pc, sv):
    """An error of the lookup at the owner is an error of the receiver, not another value."""
    from .c12 import hook_for
    own = mk('sym', 'server of the thread', sv.key)
    so, st, vals, F, fields = base_state(ctx, pc)
    s = c.prepared()
    s.heap.update(st.heap)
    s.facts.update(st.facts)
    c.state(True, so, None, s)
    n = 0
    for ip, p, w in c.encode(so, s):
        if w is None or w.op != 'dict':
            continue
        for lp, ls in c.after('loads', server=own, proxy_opts=NONE):
            st2 = ls.fork()
            st2.facts.update(p.facts)
            st2.facts[mk('isnone', own)] = False
            fi, par = c.dec
            ip2 = ctx.interp(RP(merge=False, opaque=lambda f: f.module.name not in (c.ci.module.name, 'teleprox.proxy'), hook=hook_for(own), record=unwraps,
                                raise_events=('.unwrap_proxy', '@RPCServer.unwrap_proxy'),
                                raises=lambda e, st: ('BaseException*',) if unwraps(e) else ()))
            a = mk('alloc', 'dict', 'wire %s' % c.ci.name, len(w.args))
            st2.heap[(a, 'map', None)] = mk('content', *w.args)
            for p2 in ip2.run(fi, self_val=c.so, args={par: a}, st=st2):
                if not any(e.kind == 'raises' and unwrap_name(e.name) for e in flat(p2.trace)):
                    continue
                n += 1
                ctx.check(p2.kind == 'raise', 'C10.owner', '%s: object not found' % c.ci.name, c.dec[0].key,
                          'when the lookup of the object at its owner fails, the receiver gets %s' % short(p2.val))
    if not n:
        raise AnalysisBroken('%s: no lookup at the owner' % c.ci.name)


def unwrap_name(n):
    return n.endswith('.unwrap_proxy')


def c_bytes(v):
    return v.op == 'sym' and len(v.args) > 1 and v.args[1] == 'ext:bytes' or (v.op == 'call' and v.args[0] == '.encode')


def unwraps(e):
    return e.kind == 'call' and e.name.endswith('.unwrap_proxy')


def received(ctx, c, pc, ip, p, case, want, kind, opt, other, F, fields):
    where = c.dec[0].key
    what = '%s, server %s' % (c.ci.name, case)
    if p.kind != 'return':
        ctx.fail('C10.fields', what, where, 'reading a proxy raises %s' % short(p.val))
        return
    un = [e for e in flat(p.trace) if unwraps(e)]
    same = None
    for f, b in p.facts.items():
        if f.op == 'eq' and want is not None and mentions(f, want) and mentions(f, fields['rpc_addr']):
            sides = [roots(x) for x in f.args]
            adr = [x for x in f.args if mentions(x, want)]
            if {fields['rpc_addr']} in sides and adr and adr[0].op in ('attr', 'call') and 'address' in str(adr[0].args):
                same = b
            else:
                ctx.fail('C10.owner', what, where, 'the owner is recognised by %s' % short(f))
    if un:
        e = un[-1]
        ok = same is True and e.recv is want and p.val is e.value and len(un) == 1
        ctx.check(ok, 'C10.owner', what, where, 'a proxy of %s is unwrapped by %s' % ('another server' if same is not True else 'this server', short(e.recv)))
        px = e.args[0] if e.args else None
        if px is not None:
            for o in alts(px):
                same_fields(ctx, ip, p.st, o, F, fields, 'C10.fields', what + ' (unwrapped)', where)
        return
    ctx.check(same is not True and (want is None or same is False), 'C10.owner', what, where,
              'a proxy is returned %s' % ('although this server owns the object' if same else 'without asking whether this server owns the object'))
    for o in alts(p.val):
        if ip.type_of(p.st, o) != pc.key:
            ctx.fail('C10.fields', what, where, 'a proxy is read as %s' % short(o))
            continue
        same_fields(ctx, ip, p.st, o, F, fields, 'C10.fields', what, where)
        d = options_of(ip, p.st, o)
        if kind == 'options' and d is not None:
            for n, v in (('timeout', opt), ('defer_getattr', other)):
                got = flatset(vals_of(d, n))
                ctx.check(got == [v], 'C10.options', '%s: %s' % (c.ci.name, n), where, 'the default option %s of the receiver becomes %s' % (n, [short(x) if x is not None else None for x in got]))


def readers(ctx):
    """Which server and options client and server read with."""
    from .c12 import dump_args
    ck = cls(ctx, 'RPCClient')
    so = mk('obj', ck.key, 'sym')
    n = 0
    for fi in [m for m in ctx.p.classes[ck.key].methods.values()]:
        if '.loads(' not in ast.unparse(fi.node) and 'loads' not in ast.unparse(fi.node):
            continue
        ip = ctx.interp(RP(names={'.loads'}, raising=False, opaque=lambda f: f.module.name != 'teleprox.client'))
        for p in ip.run(fi, self_val=so):
            for e in flat(p.trace):
                if e.kind == 'call' and e.name == '.loads':
                    n += 1
                    a = dump_args(ctx, e)
                    s = a.get('server')
                    ok = s is not None and all(x is NONE or (x.op == 'call' and 'RPCServer.get_server' in x.args[0]) for x in alts(s))
                    ctx.check(ok, 'C10.reader', 'server of a response', e.where, 'proxies in a response are looked up at %s' % (short(s) if s is not None else 'nothing'))
                    o = a.get('proxy_opts')
                    ctx.check(o is not None and any(x.op == 'attr' and x.args[0] is so and x.args[1] == 'default_proxy_options' for x in subterms(o)), 'C10.reader', 'options of a response', e.where,
                              'proxies in a response get the options %s' % (short(o) if o is not None else 'none'))
    if not n:
        raise AnalysisBroken('RPCClient reads no response')
    segs = []
    make = lambda: srv.policy(names={'.loads'})
    for e, (paths, ss) in srv.plain_segments(ctx, make=make).items():
        segs.extend(ss)
    segs.extend(srv.qt_segments(ctx, make=make)[2])
    for s in segs:
        for ev in flat(s.events):
            if ev.kind == 'call' and ev.name == '.loads' and ev.args and mentions(ev.args[0], s.parts):
                a = dump_args(ctx, ev)
                ctx.check(a.get('server') is s.srv, 'C10.reader', 'server of a request', ev.where, 'proxies in a request are looked up at %s' % short(a.get('server')))
