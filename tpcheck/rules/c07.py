import ast
from .base import *
from .c06 import state_fields, strip

EXPLANATION = """
On every path of ObjectProxy.__eq__ that answers True (or a truthy constant) without a request, the path condition must
contain the equality of server address, object id and attribute path of both proxies.  The hash must be computed from
those compared fields only (address, object id, attributes), be the same on every path, and nothing may rebind them after
construction; a cached hash is only ever None or that value.
"""
ASSUMPTIONS = ['hash() of equal bytes, ints and tuples of str is equal']
SEND = {'.call_obj', '@RPCClient.call_obj', '@ObjectProxy.__call__', '.get_obj', '@RPCClient.get_obj', '.send', '@RPCClient.send'}


def opq(fi):
    return fi.module.name != 'teleprox.proxy' or fi.name in ('__call__', '_undefer', '_client')


def equalities(facts):
    res = []

    def pair(a, b):
        res.append((a, b))
        if a.op == b.op and a.op in ('tuple', 'list') and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                pair(x, y)
    for c, b in facts.items():
        if b is True and c.op in ('eq', 'same'):
            pair(*c.args)
    return res


def check(ctx):
    F = state_fields(ctx)
    pc = cls(ctx, 'ObjectProxy')
    so = mk('obj', pc.key, 'sym')
    other = mk('sym', 'other', pc.key)
    fi = ctx.p.find_method(pc.key, '__eq__')
    if fi is None or fi.cls is not pc and fi.cls.key != pc.key:
        raise AnalysisBroken('ObjectProxy has no __eq__')
    ident = ('rpc_addr', 'obj_id', 'attributes')
    for k in ident:
        if k not in F:
            raise AnalysisBroken('proxy state not understood')
    n = 0
    for p, ip in eq_paths(ctx, fi, so, other):
        if p.kind != 'return':
            continue
        v = p.val
        sent = [e for e in flat(p.trace) if e.kind == 'call' and e.name in SEND]
        for a in alts(v):
            if a.op == 'call' or sent:
                continue
            if is_const(a) and not cval(a):
                continue
            n += 1
            f = dict(p.facts)
            if not is_const(a):
                f[a] = True
            eqs = equalities(f)
            for k in ident:
                x, y = mk('attr', so, F[k]), mk('attr', other, F[k])
                ok = any({strip(u), strip(w)} == {x, y} for u, w in eqs)
                ctx.check(ok, 'C07.exact', '__eq__: %s' % k, fi.key, 'two proxies are reported equal without asking the server although their %s may differ' % k)
    # an answer is given without a request only when decided
    ctx.check(n >= 1, 'C07.local', '__eq__', fi.key, 'no pair of proxies is recognised as equal locally')
    ne = ctx.p.find_method(pc.key, '__ne__')
    if ne is not None:
        for p, ip in eq_paths(ctx, ne, so, other):
            if p.kind != 'return':
                continue
            sent = [e for e in flat(p.trace) if e.kind == 'call' and e.name in SEND]
            for a in alts(p.val):
                if sent or a.op == 'call':
                    continue
                if is_const(a) and cval(a) is False:
                    eqs = equalities(p.facts)
                    for k in ident:
                        x, y = mk('attr', so, F[k]), mk('attr', other, F[k])
                        ctx.check(any({strip(u), strip(w)} == {x, y} for u, w in eqs), 'C07.exact', '__ne__: %s' % k, ne.key,
                                  'two proxies are reported equal without asking the server although their %s may differ' % k)
                else:
                    ctx.fail('C07.exact', '__ne__ decides', ne.key, 'the inequality of two proxies is decided without asking the server')
    cache, hfuncs = hashing(ctx, F, pc, so, ident)
    rebinding(ctx, F, pc, ident, cache, hfuncs)


def eq_paths(ctx, fi, so, other):
    a = fi.node.args
    ip = ctx.interp(RP(names=SEND, raising=False, opaque=opq))
    args = {}
    ps = [x.arg for x in a.args][1:]
    if ps:
        args[ps[0]] = other
        if a.vararg:
            args[a.vararg.arg] = mk('tuple')
    elif a.vararg:
        args[a.vararg.arg] = mk('tuple', other)
    return [(p, ip) for p in ip.run(fi, self_val=so, args=args)]


def hashing(ctx, F, pc, so, ident):
    fi = ctx.p.find_method(pc.key, '__hash__')
    if fi is None or fi.cls.key != pc.key:
        ctx.fail('C07.hash', '__hash__', pc.key, 'proxies define equality but no hash of their own')
        return set(), set()
    hip = ip = ctx.interp(RP(kinds=('write',), raising=False, opaque=opq, merge=False))
    values = set()
    caches = set()
    allowed = {mk('attr', so, F[k]) for k in ident}
    for p in ip.run(fi, self_val=so):
        if p.kind != 'return':
            ctx.fail('C07.hash', '__hash__ raises', fi.key, 'hashing a proxy raises')
            continue
        for e in flat(p.trace):
            if e.kind == 'write' and e.recv is so and e.value is not None and not is_const(e.value):
                caches.add((e.name, e.value))
        for v in alts(p.val):
            values.add((v, tuple(sorted(((c, b) for c, b in p.facts.items() if isinstance(b, bool)), key=lambda x: x[0].uid))))
    names = {n for n, _ in caches}
    computed = set()
    for v, facts in values:
        if v.op == 'attr' and v.args[0] is so and v.args[1] in names:
            f = dict(facts)
            isnone = any(c.op == 'isnone' and v is c.args[0] and b is False for c, b in f.items()) or \
                any(c.op == 'truth' and v in c.args and b is True for c, b in f.items()) or \
                any(c.op == 'in' and is_const(c.args[0]) and cval(c.args[0]) == v.args[1] and b for c, b in f.items())
            ctx.check(isnone, 'C07.hash-cache', '__hash__: cached value', fi.key, 'the cached hash may be returned before it has been computed')
            continue
        computed.add(v)
    for _, v in caches:
        computed.update(alts(v))
    ctx.check(len(computed) == 1, 'C07.hash-stable', '__hash__: one value', fi.key, 'the hash is not the same on every path: %s' % ', '.join(short(v, 80) for v in computed))
    for v in computed:
        ctx.check(v.op == 'call' and v.args[0] == 'hash' and len(v.args[2]) == 1, 'C07.hash', '__hash__: value', fi.key, 'the hash is %s' % short(v))
        leaves = [t for t in subterms(v) if t.op in ('attr', 'sym', 'obj') and t is not so and t not in allowed] + \
                 [t for t in subterms(v) if t.op == 'call' and t.args[0] not in ('hash', 'tuple', 'str', 'repr', '.encode', '.decode', '.join', '.__hash__')]
        ctx.check(not leaves, 'C07.hash-fields', '__hash__: inputs', fi.key, 'the hash depends on %s, which equal proxies need not share' % ', '.join(short(t, 60) for t in leaves))
    # the cache starts empty
    init = ctx.p.find_method(pc.key, '__init__')
    for n in names:
        ip = ctx.interp(RP(raising=False, opaque=lambda f: f.module.name != 'teleprox.proxy'))
        for p in ip.run(init, self_val=so):
            if p.kind == 'return':
                ctx.check(p.st.heap.get((so, 'a', n)) is NONE, 'C07.hash-cache', 'new proxy: %s' % n, init.key, 'a new proxy starts with a hash that was not computed from it')
    return names, set(hip.analysed)


def rebinding(ctx, F, pc, ident, cache, hfuncs):
    """The identifying fields (and the cached hash) are set by construction only."""
    fields = {F[k] for k in ident} | cache
    ctors = set()
    for n in ('__init__', '__setstate__'):
        fi = ctx.p.find_method(pc.key, n)
        if fi is not None:
            ip = ctx.interp(RP(raising=False, opaque=lambda f: f.module.name != 'teleprox.proxy'))
            ip.run(fi)
            ctors |= set(ip.analysed)
    for f in ctx.p.funcs.values():
        for n in ast.walk(f.node):
            hit = None
            tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                for s in ast.walk(t):
                    if isinstance(s, ast.Attribute) and s.attr in fields and s is t:
                        hit = s.attr
                    if isinstance(s, ast.Subscript) and isinstance(s.slice, ast.Constant) and s.slice.value in fields and \
                            isinstance(s.value, ast.Attribute) and s.value.attr == '__dict__':
                        hit = s.slice.value
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and \
                    isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '__dict__':
                ks = {k.arg for x in ast.walk(n) if isinstance(x, ast.Call) for k in x.keywords} | {k.value for x in ast.walk(n) if isinstance(x, ast.Dict) for k in x.keys if isinstance(k, ast.Constant)}
                if ks & fields:
                    hit = sorted(ks & fields)[0]
            if hit:
                ctx.check(f.key in ctors or (hit in cache and f.key in hfuncs), 'C07.immutable', '%s rebinds %s' % (f.key, hit), '%s:%d' % (f.module.name, n.lineno),
                          'a field that equality and hash depend on is changed after construction')
    ctx.require('C07.immutable', 1)
