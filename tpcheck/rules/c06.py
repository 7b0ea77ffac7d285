from .base import *
from . import srv

EXPLANATION = """
Reference counting as obligations on the path summaries of get_proxy, of the delete action and of the proxy's derivations:
ids come from counters that only grow; every proxy handed out enters its own new reference id into the entry that holds the
object under the proxy's object id (the entry unwrap_proxy reads); the object id is the one registered for the object or a
new one that is registered; a release removes exactly the given reference id and removes the entry and the registration if
and only if no reference is left; nothing else removes entries; derived proxies never release by themselves and keep
their parent alive.
"""
ASSUMPTIONS = ['the proxies of one server are made and released in its thread (as the library does)']
MUT = ('.pop', '.clear', '.popitem', '.remove', '.discard', '.add', '.append', '.setdefault', '.update', '.difference_update', '.intersection_update', '.symmetric_difference_update')


def state_fields(ctx):
    """wire name -> field of a proxy."""
    pc = cls(ctx, 'ObjectProxy')
    so = mk('obj', pc.key, 'sym')
    ip = ctx.interp(RP(raising=False))
    res = {}
    for p in ip.run(ctx.p.find_method(pc.key, '__getstate__'), self_val=so):
        if p.kind != 'return':
            continue
        for k in ('rpc_addr', 'obj_id', 'ref_id', 'type_str', 'attributes'):
            for v in vals_of(ip.freeze(p.st, p.val), k):
                if v is None:
                    continue
                for t in subterms(v):
                    if t.op == 'attr' and t.args[0] is so:
                        res[k] = t.args[1]
    return res


def opaque(fi):
    return fi.module.name not in ('teleprox.server', 'teleprox.proxy')


def strip(t):
    while t is not None and t.op in ('at', 'mu', 'upd'):
        t = t.args[1] if t.op == 'mu' else t.args[0]
    return t


def is_field(t, so, name):
    t = strip(t)
    return t is not None and t.op == 'attr' and t.args[0] is so and t.args[1] == name


def diff_const(a, b):
    """a - b if it is a constant."""
    at = lin_lt(a, b)
    if at.op == 'lt':
        its, k = lt_parts(at)
        if not its:
            return k
    if at is TRUE or at is FALSE:
        return -1 if at is TRUE else None
    return None


def grew(v, old):
    """new value of a counter is old + positive constant"""
    return v is not None and v.op == 'bin' and v.args[0] == '+' and (
        v.args[1] is old and is_const(v.args[2]) and isinstance(cval(v.args[2]), int) and cval(v.args[2]) > 0 or
        v.args[2] is old and is_const(v.args[1]) and isinstance(cval(v.args[1]), int) and cval(v.args[1]) > 0)


def check(ctx):
    F = state_fields(ctx)
    if not {'obj_id', 'ref_id', 'attributes', 'rpc_addr'} <= set(F):
        raise AnalysisBroken('proxy state not understood: %s' % F)
    ci = cls(ctx, 'RPCServer')
    so = mk('obj', ci.key, 'sym')
    table, opath = owner_table(ctx, ci, so, F)
    maps, counters = handing_out(ctx, ci, so, F, table, opath)
    releasing(ctx, ci, so, table, opath, maps, counters)
    others(ctx, ci, table, maps, counters)
    derived(ctx, F)
    client_release(ctx, F)
    ctx.require('C06.keep', 2)
    ctx.require('C06.release', 1)
    ctx.require('C06.derived', 2)


def owner_table(ctx, ci, so, F):
    """The table unwrap_proxy resolves object ids with, and where in an entry the object is."""
    fi = ctx.p.find_method(ci.key, 'unwrap_proxy')
    px = sym('proxy')
    ip = ctx.interp(RP(kinds=('getitem',), names={'.get'}, raising=False, opaque=opaque))
    oid = mk('attr', px, F['obj_id'])
    params = [a.arg for a in fi.node.args.args][1:]
    found = set()
    for p in ip.run(fi, self_val=so, args={params[0]: px}):
        if p.kind != 'return':
            continue
        for e in flat(p.trace):
            if e.recv is not None and e.args and e.args[0] is oid and strip(e.recv).op == 'attr' and strip(e.recv).args[0] is so:
                idx = [x.args[0] for x in flat(p.trace) if x.kind == 'getitem' and strip(x.recv) is strip(e.value)]
                found.add((strip(e.recv).args[1], idx[0] if idx else None))
    if len(found) != 1:
        raise AnalysisBroken('unwrap_proxy does not look object ids up in one table: %s' % (found,))
    return found.pop()


def at_path(t, idx):
    if idx is None:
        return t
    r = mk('item', t, idx)
    if t.op in ('list', 'tuple') and is_const(idx) and isinstance(cval(idx), int) and not any(x.op == 'star' for x in t.args) and -len(t.args) <= cval(idx) < len(t.args):
        return t.args[cval(idx)]
    return r


def handing_out(ctx, ci, so, F, table, opath):
    fi = ctx.p.find_method(ci.key, 'get_proxy')
    obj = sym('obj')
    params = [a.arg for a in fi.node.args.args][1:]
    kw = {fi.node.args.kwarg.arg: mk('dict')} if fi.node.args.kwarg else {}
    ip = ctx.interp(RP(kinds=('write', 'setitem', 'del'), names=set(MUT), raising=False, opaque=opaque, split=lambda a: mentions(a, lambda t: getattr(t, 'op', None) == 'attr' and t.args[0] is so)))
    maps = set()
    counters = set()
    n = 0
    where = fi.key
    T = mk('attr', so, table)
    for p in ip.run(fi, self_val=so, args=dict(kw, **{params[0]: obj})):
        if p.kind != 'return':
            continue
        n += 1
        px = p.val
        h = p.st.heap
        get = lambda k: h.get((px, 'a', F[k]))
        O, R = get('obj_id'), get('ref_id')
        if O is None or R is None:
            ctx.fail('C06.handed-out', 'get_proxy result', where, 'the value returned is not a newly made proxy')
            continue
        # reference id
        okr = R.op == 'attr' and R.args[0] is so and grew(h.get((so, 'a', R.args[1])), R) or fresh_call(R)
        if ctx.check(okr, 'C06.fresh-ref', 'get_proxy: reference id', where, 'the reference id %s is not a new one from a growing counter' % short(R)) and R.op == 'attr':
            counters.add(R.args[1])
        for O1 in alts(O):
            ob = strip(O1)
            if ob.op in ('item', 'get') and strip(ob.args[0]).op == 'attr' and strip(ob.args[0]).args[0] is so and is_id(ob.args[1], obj):
                maps.add(strip(ob.args[0]).args[1])
                ctx.check(True, 'C06.object-id', 'get_proxy: known object', where, '')
            elif O1.op == 'attr' and O1.args[0] is so or fresh_call(O1):
                if O1.op == 'attr':
                    ok = grew(h.get((so, 'a', O1.args[1])), O1)
                    counters.add(O1.args[1])
                else:
                    ok = True
                ctx.check(ok, 'C06.object-id', 'get_proxy: new object', where, 'a new object id is not taken from a growing counter')
                reg = [e for e in flat(p.trace) if e.kind == 'setitem' and strip(e.recv).op == 'attr' and strip(e.recv).args[0] is so and is_id(e.args[0], obj) and e.value is O1
                       or e.kind == 'call' and e.name == '.setdefault' and strip(e.recv).op == 'attr' and strip(e.recv).args[0] is so and is_id(e.args[0], obj) and len(e.args) > 1 and e.args[1] is O1]
                if ctx.check(bool(reg), 'C06.same-id', 'get_proxy: new id registered', where, 'a new object id is not registered for the object, so another proxy of it gets another id'):
                    maps.add(strip(reg[0].recv).args[1])
                # only when unknown
                known = [b for c, b in p.facts.items() if c.op == 'in' and is_id(c.args[0], obj) and strip(c.args[1]).op == 'attr' and strip(c.args[1]).args[0] is so]
                none = any(c.op == '=' and b is NONE and any(t.op in ('get', 'item') and is_id(t.args[1], obj) for t in subterms(c)) for c, b in p.facts.items())
                ctx.check(True not in known or none, 'C06.same-id', 'get_proxy: id of a known object', where, 'an object that already has an id is given another')
            else:
                ctx.fail('C06.object-id', 'get_proxy: object id', where, 'the object id is %s: neither the registered one nor a new one' % short(O1))
        # entry
        evs = list(flat(p.trace))
        okentry = any(c.op == 'in' and strip(c.args[1]) is T and c.args[0] is O and b is True for c, b in p.facts.items())
        okref = False
        fresh = [e for e in evs if e.recv is not None and strip(e.recv) is T and e.args and e.args[0] is O and
                 (e.kind == 'setitem' or e.kind == 'call' and e.name == '.setdefault')]
        for e in fresh:
            val = e.value if e.kind == 'setitem' else (e.args[1] if len(e.args) > 1 else None)
            v = val
            if v is not None and v.op == 'alloc':
                v = ip.freeze(p.st, v)
            good = v is not None and at_path(v, opath) is obj
            ctx.check(good, 'C06.keep', 'get_proxy: entry', e.where, 'the entry made for the object does not hold the object itself where unwrap_proxy looks for it')
            okentry = okentry or good
            if e.kind == 'setitem':
                absent = any(c.op == 'in' and strip(c.args[1]) is T and c.args[0] is O and b is False for c, b in p.facts.items()) or fresh_oid(O, so, h)
                ctx.check(absent, 'C06.keep-refs', 'get_proxy: entry replaced', e.where, 'an existing entry is overwritten, which forgets the references handed out before')
            if v is not None and mentions(v, R):
                okref = True
        ctx.check(okentry, 'C06.keep', 'get_proxy: object kept', where, 'no entry keeps the object alive under the proxy\'s object id')
        for e in evs:
            if e.kind == 'call' and e.name in ('.add', '.append') and e.args and e.args[0] is R and entry_of(e.recv, T, O, fresh, ip, p.st):
                okref = True
            if e.kind == 'setitem' and e.args and e.args[0] is R and entry_of(e.recv, T, O, fresh, ip, p.st):
                okref = True
            if e.kind == 'del' or e.kind == 'call' and e.name in ('.pop', '.clear', '.popitem', '.remove', '.discard'):
                if e.recv is not None and mentions(e.recv, T):
                    ctx.fail('C06.hand-out-only', 'get_proxy removes', e.where, 'handing out a proxy takes something out of the reference table')
        ctx.check(okref, 'C06.count', 'get_proxy: reference recorded', where, 'the new reference is not recorded in the entry of its object')
        addr = get('rpc_addr')
        ctx.check(addr is not None and all(mentions(a, lambda t: getattr(t, 'op', None) == 'attr' and t.args[0] is so and t.args[1] == 'address') for a in alts(addr)),
                  'C06.address', 'get_proxy: address', where, 'the proxy does not carry the server\'s address')
        at = get('attributes')
        ctx.check(at is not None and at.op == 'tuple' and not at.args, 'C06.handed-out', 'get_proxy: attributes', where, 'a new proxy has pending attribute lookups')
    if n < 1:
        raise AnalysisBroken('get_proxy never returns')
    ctx.check(len(maps) == 1, 'C06.same-id', 'get_proxy: one registry', where, 'ids are looked up and registered in different tables: %s' % sorted(maps))
    return maps, counters


def fresh_oid(O, so, h):
    return O.op == 'attr' and O.args[0] is so and grew(h.get((so, 'a', O.args[1])), O)


def fresh_call(t):
    return t.op == 'call' and t.args[0] in ('next', '.__next__')


def is_id(t, obj):
    return t.op == 'call' and t.args[0] == 'id' and len(t.args[2]) == 1 and t.args[2][0] is obj


def entry_of(recv, T, O, fresh, ip, st):
    if recv is None:
        return False
    for t in subterms(recv):
        if t.op in ('item', 'get') and strip(t.args[0]) is T and t.args[1] is O:
            return True
    for e in fresh:
        val = e.value if e.kind == 'setitem' else e.args[1]
        if val is not None and (mentions(recv, val) or mentions(recv, ip.freeze(st, val)) or mentions(ip.freeze(st, val), recv)):
            return True
    return False


def lens(facts, x):
    """Possible sizes (0, 1, 2, 7) of a collection."""
    def is_x(t):
        return strip(t) is strip(x)

    def is_len(t):
        return t.op == 'len' and is_x(t.args[0]) or t.op == 'call' and t.args[0] == 'len' and t.args[2] and is_x(t.args[2][0])
    alive = {0, 1, 2, 7}
    for c, b in facts.items():
        if not isinstance(b, bool):
            continue
        for n in list(alive):
            r = None
            if c.op == 'truth' and (is_x(c.args[0]) or is_len(c.args[0])):
                r = n > 0
            elif c.op == 'lt':
                its, k = lt_parts(c)
                if its and all(is_len(t) for t, _ in its):
                    r = k + sum(co * n for _, co in its) < 0
            elif c.op == 'eq':
                for u, v in (c.args, c.args[::-1]):
                    if is_len(u) and is_const(v):
                        r = cval(v) == n
                    elif is_x(u) and v.op in ('set', 'list', 'tuple', 'dict') and not v.args or is_x(u) and v.op == 'call' and v.args[0] == 'set' and not v.args[2]:
                        r = n == 0
            if r is not None and r != b:
                alive.discard(n)
    return alive


def releasing(ctx, ci, so, table, opath, maps, counters):
    fi = ctx.p.find_method(ci.key, 'process_action')
    params = [a.arg for a in fi.node.args.args][1:]
    opts = sym('opts')
    T = mk('attr', so, table)
    oid = mk('item', opts, const('obj_id'))
    rid = mk('item', opts, const('ref_id'))
    ip = ctx.interp(RP(kinds=('write', 'setitem', 'del'), names=set(MUT), raising=False, opaque=opaque,
                       split=lambda a: mentions(a, lambda t: getattr(t, 'op', None) == 'attr' and t.args[0] is so)))
    n = 0
    for p in ip.run(fi, self_val=so, args={params[0]: const('delete'), params[1]: opts}):
        if p.kind != 'return':
            continue
        n += 1
        evs = list(flat(p.trace))
        where = evs[0].where if evs else fi.key
        for e in evs:
            if e.kind == 'write' and e.recv is so and e.name in counters:
                ctx.fail('C06.counter', 'delete changes %s' % e.name, e.where, 'releasing a reference changes an id counter, so that ids are reused')
        rem = [e for e in evs if (e.kind == 'call' and e.name in ('.remove', '.discard', '.pop') or e.kind == 'del') and e.recv is not None and
               strip(e.recv) is not T and mentions(e.recv, T)]
        if not ctx.check(len(rem) == 1 and len(rem[0].args) >= 1 and rem[0].args[0] is rid and mentions(rem[0].recv, oid), 'C06.release', 'delete: reference', where,
                         'a release does not remove exactly the given reference id from the entry of the given object id'):
            continue
        refs = rem[0].recv
        other = [e for e in evs if e is not rem[0] and e.recv is not None and strip(e.recv) is not T and mentions(e.recv, T) and
                 (e.kind in ('setitem', 'write', 'del') or e.kind == 'call' and e.name in MUT)]
        ctx.check(not other, 'C06.keep-others', 'delete: other references', other[0].where if other else where, 'releasing a reference changes the others of the object')
        gone = [e for e in evs if strip(e.recv) is T and (e.kind == 'del' or e.kind == 'call' and e.name in ('.pop', '.clear', '.popitem'))] if evs else []
        ungone = [e for e in evs if e.recv is not None and strip(e.recv).op == 'attr' and strip(e.recv).args[0] is so and strip(e.recv).args[1] in maps and
                  (e.kind == 'del' or e.kind == 'call' and e.name in ('.pop', '.clear', '.popitem'))]
        size = lens(p.facts, refs)
        if gone:
            e = gone[0]
            ctx.check(len(gone) == 1 and e.args and e.args[0] is oid and e.name not in ('.clear', '.popitem'), 'C06.release-entry', 'delete: entry', e.where,
                      'the entry removed is not that of the released object')
            ctx.check(size <= {0}, 'C06.keep-others', 'delete: last reference', e.where, 'an object is dropped although references to it may be left')
            ent = mk('item', T, oid)
            keys = [k for u in ungone for k in u.args[:1]]
            ctx.check(len(ungone) == 1 and len(keys) == 1 and keys[0].op == 'call' and keys[0].args[0] == 'id' and entry_obj(keys[0].args[2][0], T, oid, opath), 'C06.forget-id',
                      'delete: registration', where, 'dropping an object leaves its id registered (a later object may get the id), or forgets another one\'s')
        else:
            ctx.check(0 not in size, 'C06.drop-last', 'delete: last reference', where, 'an object is kept although its last reference was released')
            ctx.check(not ungone, 'C06.keep-id', 'delete: registration', where, 'an object with references left loses its id')
    if n < 1:
        raise AnalysisBroken('delete action not understood')


def entry_obj(t, T, oid, opath):
    t = strip(t)
    e = t
    if opath is not None:
        if t.op != 'item' or t.args[1] is not opath:
            return False
        e = strip(t.args[0])
    return e.op in ('item', 'get', 'pop') and strip(e.args[0]) is T and e.args[1] is oid or \
        e.op == 'call' and e.args[0] == '.pop' and strip(e.args[1]) is T and e.args[2] and e.args[2][0] is oid


def others(ctx, ci, table, maps, counters):
    """No other function changes the tables or the counters."""
    import ast
    seen = set()
    for ip in ctx.ips:
        seen |= set(ip.analysed)
    names = {table} | set(maps)
    init = ctx.p.find_method(ci.key, '__init__')
    for f in ctx.p.funcs.values():
        if f is init:
            continue
        for n in ast.walk(f.node):
            bad = None
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in tg:
                    for s in ast.walk(t):
                        if isinstance(s, ast.Attribute) and s.attr in names | counters and (s is t or isinstance(t, ast.Subscript)):
                            bad = s.attr
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'clear', 'popitem', 'update', 'setdefault', 'remove', 'discard'):
                for s in ast.walk(n.func.value):
                    if isinstance(s, ast.Attribute) and s.attr in names:
                        bad = s.attr
            if bad:
                ctx.check(f.key in seen, 'C06.only-there', '%s changes %s' % (f.key, bad), '%s:%d' % (f.module.name, n.lineno),
                          'the reference tables are changed outside handing out and releasing')
    ctx.check(True, 'C06.only-there', 'all functions', 'teleprox', '')


def derived(ctx, F):
    pc = cls(ctx, 'ObjectProxy')
    so = mk('obj', pc.key, 'sym')
    opq = lambda fi: fi.module.name != 'teleprox.proxy'
    for n in ('_deferred_attr', '_copy'):
        fi = ctx.p.find_method(pc.key, n)
        if fi is None:
            raise AnalysisBroken('anchor vanished: ObjectProxy.%s' % n)
        kw = {fi.node.args.kwarg.arg: mk('dict')} if fi.node.args.kwarg else {}
        ip = ctx.interp(RP(raising=False, opaque=lambda f: opq(f) or f.name == '_undefer', max_states=2000))
        for p in ip.run(fi, self_val=so, args=kw):
            if p.kind != 'return' or p.val is so:
                continue
            px = p.val
            if px.op != 'obj' or px.args[0] != pc.key:
                continue
            opts = p.st.heap.get((px, 'a', '_proxy_options'))
            fv = ip.freeze(p.st, opts) if opts is not None else None
            vs = vals_of(fv, 'auto_delete') if fv is not None else [None]
            ctx.check(vs == [FALSE], 'C06.derived', '%s: auto_delete' % n, fi.key, 'a derived proxy may release the reference it shares with its parent (auto_delete is %s)' %
                      ', '.join(short(v, 60) if v is not None else 'unset' for v in vs))
            rid = p.st.heap.get((px, 'a', F['ref_id']))
            ctx.check(rid is not None and mentions(rid, mk('attr', so, F['ref_id'])), 'C06.derived-ref', '%s: reference id' % n, fi.key, 'a derived proxy does not carry its parent\'s reference')
            if n != '_copy':
                held = [k for k, v in p.st.heap.items() if k[0] is px and k[1] == 'a' and v is so]
                ctx.check(bool(held), 'C06.parent', '%s: parent kept' % n, fi.key, 'a proxy to an attribute does not keep its parent (which owns the reference) alive')
    fi = ctx.p.find_method(pc.key, '__del__')
    if fi is not None:
        ip = ctx.interp(RP(names={'.delete', '@RPCClient.delete', '.send', '@RPCClient.send'}, raising=False, opaque=opq))
        ad = mk('item', mk('attr', so, '_proxy_options'), const('auto_delete'))
        n = 0
        for p in ip.run(fi, self_val=so):
            if [e for e in flat(p.trace) if e.kind == 'call']:
                n += 1
                on = any(b is True and c.op in ('same', 'eq', 'truth') and ad in c.args for c, b in p.facts.items())
                ctx.check(on, 'C06.collected', '__del__', fi.key, 'a collected proxy releases its reference although auto_delete is off')
        ctx.check(n > 0, 'C06.collected', '__del__ with auto_delete', fi.key, 'a collected proxy with auto_delete does not release its reference')


def client_release(ctx, F):
    pc = cls(ctx, 'ObjectProxy')
    cc = cls(ctx, 'RPCClient')
    px = mk('obj', pc.key, 'sym')
    fi = ctx.p.find_method(cc.key, 'delete')
    ip = ctx.interp(RP(names={'@RPCClient.send'}, raising=False, opaque=lambda f: f.name == 'send' or f.module.name != 'teleprox.client'))
    params = [a.arg for a in fi.node.args.args][1:]
    n = 0
    for p in ip.run(fi, args={params[0]: px}):
        ss = calls(p.trace, '@RPCClient.send')
        if p.kind != 'return':
            continue
        n += 1
        ok = len(ss) == 1 and (ss[0].args[:1] == (const('delete'),) or dict(ss[0].kwargs).get('action') is const('delete'))
        d = None
        if ok:
            d = dict(ss[0].kwargs).get('opts') or (ss[0].args[1] if len(ss[0].args) > 1 else None)
            ok = d is not None and vals_of(d, 'obj_id') == [mk('attr', px, F['obj_id'])] and vals_of(d, 'ref_id') == [mk('attr', px, F['ref_id'])]
        ctx.check(ok, 'C06.release-request', 'RPCClient.delete', fi.key, 'releasing a proxy does not send its own object and reference id')
    if not n:
        raise AnalysisBroken('RPCClient.delete never returns')
