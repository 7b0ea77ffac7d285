from .prox import *

EXPLANATION = """
The local operations of a proxy (construction, hash, safe printing, copy, state export and restore, attribute lookup in
deferred mode, option changes, comparison of proxies with equal identity, encoding by each serializer) are interpreted on
a proxy with symbolic state: no path may look up a client or make a request, also not implicitly (truth value, length or
comparison of a proxy).  An attribute lookup must give a proxy of the same object whose path is the old path followed by
the name; the server's resolution must start from the object registered under the proxy's id and apply the names of the
path in order, for every path length.
"""
ASSUMPTIONS = []


def spec(ctx, pc):
    safe = {'safe_print': TRUE}
    deferred = {'defer_getattr': TRUE}
    name = sym('attribute name', )
    return [('__hash__', {}, None), ('__repr__', safe, None), ('__str__', safe, None), ('_copy', {}, None),
            ('__getstate__', {}, None), ('__setstate__', {}, 'state'), ('__getattr__', deferred, (name,)), ('_deferred_attr', {}, (name,)),
            ('_set_proxy_options', {}, None), ('__del__', {'auto_delete': FALSE}, None), ('__eq__', {}, 'same'), ('__ne__', {}, 'same'),
            ('__copy__', {}, None), ('__deepcopy__', {}, (mk('dict'),)), ('__reduce__', {}, None), ('__reduce_ex__', {}, (const(2),)), ('__format__', safe, (const(''),)),
            ('__dir__', {}, None), ('__sizeof__', {}, None), ('__getnewargs__', {}, None), ('__getnewargs_ex__', {}, None)]


def contact(e):
    return e.kind == 'call' and (e.name.startswith('@RPCClient') or e.name in ('.send_multipart', '.send', '.connect') or
                                 e.name.endswith(':RPCClient') or e.name == 'RPCClient')


def policy(ctx, **kw):
    return RP(record=lambda e: contact(e) or e.kind == 'new', raising=False, opaque=boundary, merge=False, max_states=3000, **kw)


def proxy_like(ctx, ip, st, t, pc, pfields):
    while t.op in ('at', 'mu', 'upd'):
        t = t.args[1] if t.op == 'mu' else t.args[0]
    if t.op == 'attr' and t.args[1] in pfields and is_px(ip, st, t.args[0], pc):
        return True
    return is_px(ip, st, t, pc)


def is_px(ip, st, t, pc):
    try:
        return ip.type_of(st, t) == pc.key
    except Exception:
        return False


def implicit(ctx, ip, p, pc, pfields):
    """A proxy whose truth value, length or comparison decides this path."""
    for c in p.facts:
        xs = []
        if c.op in ('truth', 'eq', 'lt', 'in'):
            xs = [x for x in c.args if hasattr(x, 'op')]
        for x in list(xs):
            if x.op == 'len' or (x.op == 'call' and x.args[0] == 'len'):
                xs += [y for y in (x.args if x.op == 'len' else x.args[2]) if hasattr(y, 'op')]
        if c.op == 'eq' and any(is_const(x) and cval(x) is None for x in xs):
            continue
        for x in xs:
            if proxy_like(ctx, ip, p.st, x, pc, pfields):
                return c
    return None


def proxy_fields(ctx, pc):
    """Fields of a proxy that may hold a proxy."""
    r = set()
    for n in ('_deferred_attr', '_copy'):
        fi = ctx.p.find_method(pc.key, n)
        if fi is None:
            continue
        ip = ctx.interp(RP(kinds=('write',), raising=False, opaque=boundary))
        for p in ip.run(fi):
            for e in flat(p.trace):
                if e.kind == 'write' and e.value is not None and e.value.op != 'const' and is_px(ip, p.st, e.value, pc):
                    r.add(e.name)
    return r


def check(ctx):
    pc = cls(ctx, 'ObjectProxy')
    pfields = proxy_fields(ctx, pc)
    create(ctx, pc)
    for name, opts, extra in spec(ctx, pc):
        fi = ctx.p.find_method(pc.key, name)
        if fi is None:
            if name in ('__hash__', '__repr__', '__getattr__', '__getstate__', '__eq__'):
                raise AnalysisBroken('anchor vanished: ObjectProxy.' + name)
            continue
        if name == '__ne__':
            continue
        so, st, vals, F, fields = made(ctx, pc, opts=opts)
        a = fi.node.args
        args = {}
        ps = [x.arg for x in a.posonlyargs + a.args][1:]
        give = extra if isinstance(extra, tuple) else ()
        if extra == 'same':
            other = mk('obj', pc.key, 'other')
            for w, f in F.items():
                st.heap[(other, 'a', f)] = st.heap[(so, 'a', f)]
            give = (other,)
        for x, v in zip(ps, give):
            args[x] = v
        if a.vararg:
            args[a.vararg.arg] = mk('tuple', *give[len(ps):])
        if a.kwarg:
            args[a.kwarg.arg] = mk('dict')
        so2 = so
        if extra == 'state':
            so2 = mk('obj', pc.key, 'restored')
            args[ps[0]] = mk('dict', *[(const(w), sym('state ' + w)) for w in F])
        n = 0
        for ip, p in variants(ctx, pfields, fi, so2, args, st):
            n += 1
            ev = next((e for e in flat(p.trace) if contact(e)), None)
            ctx.check(ev is None, 'C09.local', name, ev.where if ev else fi.key, '%s contacts the server (%s)' % (name, ev.name if ev else ''))
            im = implicit(ctx, ip, p, pc, pfields)
            ctx.check(im is None, 'C09.implicit', name, fi.key, '%s evaluates %s, which asks the server' % (name, short(im) if im else ''))
            if extra == 'same':
                if is_const(p.val) or p.kind != 'return':
                    ctx.check(p.val is TRUE, 'C09.same', name, fi.key, 'two proxies of the same object compare as %s' % short(p.val))
            if name in ('__getattr__', '_deferred_attr'):
                derived(ctx, ip, p, fi, F, fields, give[0], so)
        if not n:
            raise AnalysisBroken('no path through ' + name)
    eager(ctx, pc)
    encode(ctx, pc, pfields)
    resolve(ctx, pc)
    ctx.require('C09.local', 10)
    ctx.require('C09.path', 2)
    ctx.require('C09.resolve', 2)


def variants(ctx, pfields, fi, so, args, st):
    """Paths of a proxy without and with a parent proxy."""
    pc = cls(ctx, 'ObjectProxy')
    for parent in (None, mk('sym', 'parent proxy', pc.key)):
        s = st.fork()
        if parent is not None:
            if not pfields:
                return
            for f in pfields:
                s.heap[(so, 'a', f)] = parent
        ip = ctx.interp(policy(ctx, hook=None))
        for p in ip.run(fi, self_val=so, args=args, st=s):
            yield ip, p


def derived(ctx, ip, p, fi, F, fields, name, so):
    if p.kind != 'return':
        ctx.fail('C09.path', fi.name, fi.key, 'an attribute lookup raises %s' % short(p.val))
        return
    for v in alts(p.val):
        h = lambda w: ip.freeze(p.st, p.st.heap[(v, 'a', F[w])]) if (v, 'a', F[w]) in p.st.heap else None
        at = h('attributes')
        base = fields['attributes']
        ok = at is not None and at.op in ('tuple', 'list') and len(at.args) == 2 and at.args[1] is name and at.args[0].op == 'star' and at.args[0].args[0] is base
        ctx.check(ok, 'C09.path', fi.name, fi.key, 'the path of the looked up attribute is %s' % (short(at) if at is not None else short(v)))
        for w in ('rpc_addr', 'obj_id', 'ref_id'):
            ctx.check(h(w) is not None and roots(h(w)) == roots(fields[w]), 'C09.path-object', '%s: %s' % (fi.name, w), fi.key,
                      'the looked up attribute belongs to another object')


def create(ctx, pc):
    init = ctx.p.find_method(pc.key, '__init__')
    ip = ctx.interp(policy(ctx))
    for p in ip.run(init):
        ev = next((e for e in flat(p.trace) if contact(e)), None)
        ctx.check(ev is None, 'C09.local', '__init__', init.key, 'creating a proxy contacts the server')


def eager(ctx, pc):
    """Without deferral the value is asked for at once, through the same derived proxy; _undefer resolves the whole path."""
    fi = ctx.p.find_method(pc.key, '_undefer')
    if fi is None:
        raise AnalysisBroken('anchor vanished: ObjectProxy._undefer')
    for n in (0, 1, 2):
        attrs = mk('tuple', *[sym('name %d' % i) for i in range(n)])
        so, st, vals, F, fields = made(ctx, pc, attributes=attrs)
        ip = ctx.interp(RP(record=contact, raising=False, opaque=boundary, hook=client_hook(ctx)))
        a = fi.node.args
        for p in ip.run(fi, self_val=so, st=st, args={a.kwarg.arg: mk('dict')} if a.kwarg else {}):
            reqs = [e for e in flat(p.trace) if contact(e) and e.name != '@RPCClient.get_client']
            if n == 0:
                ctx.check(p.val is so and not reqs, 'C09.undefer', 'no pending lookups', fi.key, 'a proxy without pending lookups is not used as it is')
            else:
                b = bound_args(ctx, reqs[0], 'RPCClient') if len(reqs) == 1 else {}
                ctx.check(len(reqs) == 1 and b and b.get('obj') is so and p.val is reqs[0].value, 'C09.undefer', 'pending lookups', fi.key,
                          'pending lookups are not resolved by requesting the proxy itself')


def encode(ctx, pc, pfields):
    base = cls(ctx, 'Serializer')
    for k in [base.key] + list(ctx.p.subclasses(base.key)):
        ci = ctx.p.classes[k]
        fi = ctx.p.find_method(k, 'encode')
        if fi is None or ci.key == base.key and len(ctx.p.subclasses(base.key)):
            continue
        px, st, vals, F, fields = made(ctx, pc)
        st.facts = dict(st.facts)
        ip = ctx.interp(RP(record=contact, raising=False, merge=False, opaque=lambda f: f.module.name not in ('teleprox.serializer', 'teleprox.proxy')))
        for p in ip.run(fi, self_val=mk('obj', k, 'sym'), args={fi.node.args.args[1].arg: px}, st=st):
            ev = next((e for e in flat(p.trace) if contact(e)), None)
            ctx.check(ev is None, 'C09.local', 'encode by %s' % ci.name, ev.where if ev else fi.key, 'encoding a proxy contacts the server')


def resolve(ctx, pc, rule='C09.resolve'):
    sv = cls(ctx, 'RPCServer')
    fi = ctx.p.find_method(sv.key, 'unwrap_proxy')
    if fi is None:
        raise AnalysisBroken('anchor vanished: RPCServer.unwrap_proxy')
    par = fi.node.args.args[1].arg
    so_srv = mk('obj', sv.key, 'sym')
    # any length: the loop (or reduction) must run over the whole path
    def bases(p):
        return None
    for n in (0, 1, 2, 3, None):
        attrs = None if n is None else mk('tuple', *[sym('name %d' % i) for i in range(n)])
        px, st, vals, F, fields = made(ctx, pc, attributes=attrs)
        oid = fields['obj_id']
        ip = ctx.interp(RP(names={'getattr'}, kinds={'break'}, raising=False, want_loops=True, opaque=lambda f: f.module.name != 'teleprox.server'))
        rets = 0
        for p in ip.run(fi, self_val=so_srv, args={par: px}, st=st):
            if p.kind != 'return':
                continue
            rets += 1
            v = p.val
            if n is None:
                whole_path(ctx, fi, p, v, fields, oid, so_srv, rule)
                continue
            names = []
            while v.op in ('getattr', 'call') and (v.op == 'getattr' or v.args[0] == 'getattr'):
                o, nm = (v.args[0], v.args[1]) if v.op == 'getattr' else (v.args[2][0], v.args[2][1])
                if v.op == 'call' and len(v.args[2]) > 2:
                    ctx.fail(rule, 'getattr default', fi.key, 'a missing attribute is replaced by a default')
                names.insert(0, nm)
                v = o
            ctx.check(names == list(attrs.args), rule, '%d pending lookups' % n, fi.key,
                      'the lookups %s are resolved as %s' % ([short(x) for x in attrs.args], [short(x) for x in names]))
            ctx.check(entry_object(v, oid, so_srv), rule, 'object of the proxy (%d)' % n, fi.key, 'the lookups start from %s' % short(v))
        if not rets:
            raise AnalysisBroken('unwrap_proxy never returns')


def entry_object(v, oid, so):
    """Is v part of the entry of a server table found under the proxy's object id?"""
    v = strip(v)
    if v.op == 'item' and v.args[1] is not oid:
        v = strip(v.args[0])
    elif v.op == 'attr' and v.args[0] is not so:
        v = strip(v.args[0])
    if v.op == 'call' and v.args[0] in ('.get',) and v.args[2] and v.args[2][0] is oid:
        v = mk('item', v.args[1], oid)
    if v.op in ('get',) and v.args[1] is oid:
        v = mk('item', v.args[0], oid)
    return v.op == 'item' and v.args[1] is oid and strip(v.args[0]).op == 'attr' and strip(v.args[0]).args[0] is so


def whole_path(ctx, fi, p, v, fields, oid, so, rule):
    base = fields['attributes']
    copied = lambda x: copied(x.args[2][0]) if x.op == 'call' and x.args[0] in ('list', 'tuple', 'iter') and len(x.args[2]) == 1 else x
    v = strip(v) if v.op != 'mu' else v
    loops = [e for e in p.trace if e.kind == 'loop']
    if v.op == 'mu' and loops:
        e = loops[-1]
        ra = e.recv.args[2] if e.recv.op == 'call' and e.recv.args[0] in ('range', 'enumerate') else ()
        ix = len(ra) == 1 and (copied(ra[0]) is base or len_of(ra[0], base))
        ctx.check(copied(e.recv) is base or ix, rule, 'whole path', fi.key, 'the lookups resolved are %s, not the whole path' % short(e.recv))
        for it in e.extra:
            if it.kind != 'n' or it.st is None:
                continue
            nx = next((x for k, x in it.st.env.items() if '%d.%s' % (k[0], k[1]) == v.args[1]), None)
            if nx is None:
                continue
            ok = nx.op in ('getattr', 'call') and (nx.op == 'getattr' or nx.args[0] == 'getattr')
            if ok:
                a = nx.args if nx.op == 'getattr' else nx.args[2]
                ok = len(a) == 2 and strip_mu(a[0], v) and (a[1].op == 'elem' and copied(a[1].args[0]) is base or ix and mentions(a[1], e.recv))
            ctx.check(ok, rule, 'each step', fi.key, 'a step of the resolution gives %s' % short(nx))
        ctx.check(all(it.kind != 'break' and not [b for b in it.trace if b.kind == 'break'] for it in e.extra), rule, 'no early end', fi.key, 'resolving the path may end early')
    elif v.op == 'call' and v.args[0] in ('functools.reduce', 'reduce'):
        a = v.args[2]
        ctx.check(len(a) == 3 and a[0] is ext('getattr') and copied(a[1]) is base and entry_object(a[2], oid, so), rule, 'whole path', fi.key,
                  'the path is resolved by %s' % short(v))
    else:
        ctx.check(any(mentions(x, base) for x in [v]), rule, 'whole path', fi.key, 'the path is not used: %s' % short(v))


def strip_mu(x, v):
    return x is v or (x.op == 'mu' and x.args[1] == v.args[1])


def len_of(x, base):
    return (x.op == 'len' and x.args[0] is base) or (x.op == 'call' and x.args[0] == 'len' and x.args[2] == (base,))
