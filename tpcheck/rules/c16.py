import ast
from .base import *
from . import srv as S

EXPLANATION = """
The two registries and their locks are found by interpreting the client's constructor and the server's registration.  Every
function that mentions a registry is then interpreted: each access must be made under its lock; an entry may be added only
in the critical section that found the key absent, and only for the current thread (and the given address); if the key is
present KeyError is raised and nothing is added, opened or removed; an entry may be removed only if it is the given object.
Lookup must return the entry of the calling thread.  Every path on which the client's constructor raises after registering
must remove the entry and close the socket; closing does both.
"""
ASSUMPTIONS = ['thread identifiers of running threads are distinct (Python)',
               'operations on a dict under a lock are not interleaved with others under the same lock']
REMOVE = ('.pop', '.popitem', '.clear')
CURRENT = ('threading.current_thread().ident', 'threading.get_ident()', '_thread.get_ident()')


def registry_of(ctx, fi, value, ident_first, **kw):
    """(registry, lock, key) of the stores that put value into a class-level or module-level dict."""
    ip = ctx.interp(RP(record=lambda e: e.kind in ('setitem', 'call', 'enter', 'exit'), raising=False, opaque=opaque(ctx), merge=False))
    found = {}
    for p in ip.run(fi, **kw):
        for e in flat(p.trace):
            if e.kind == 'setitem' and e.value is value and is_global(e.recv):
                found.setdefault(e.recv, []).append(e)
            if e.kind == 'call' and e.name == '.setdefault' and len(e.args) == 2 and e.args[1] is value and is_global(e.recv):
                found.setdefault(e.recv, []).append(e)
    return found


def is_global(t):
    return t is not None and (t.op == 'attr' and t.args[0].op == 'cls' or t.op == 'global')


def opaque(ctx, extra=()):
    return lambda f: f.module.name not in ('teleprox.client', 'teleprox.server') or f.name in ('ensure_connection', 'run_lazy', 'check_address') + tuple(extra) or \
        f.cls is not None and f.cls.name == 'RPCServer' and f.name == '__init__'


def names_of(reg):
    return reg.args[1] if reg.op == 'attr' else reg.args[-1]


def is_ident(t):
    return show(t) in CURRENT


def check(ctx):
    ci, si = cls(ctx, 'RPCClient'), cls(ctx, 'RPCServer')
    cself = mk('obj', ci.key, 'sym')
    init = ctx.p.find_method(ci.key, '__init__')
    cregs = registry_of(ctx, init, cself, True, self_val=cself)
    reg_fn = ctx.p.find_method(si.key, 'register_server')
    srv = sym(reg_fn.node.args.args[-1].arg)
    sregs = registry_of(ctx, reg_fn, srv, True)
    if not cregs:
        ctx.fail('C16.registered', 'RPCClient.__init__', init.key, 'a new client is not registered')
        return
    if not sregs:
        ctx.fail('C16.registered', 'RPCServer.register_server', reg_fn.key, 'a server is not registered')
        return
    locks = {}
    for regs in (cregs, sregs):
        for r, evs in regs.items():
            ls = [set(e.locks) for e in evs]
            common = set.intersection(*ls)
            if not ctx.check(bool(common), 'C16.locked', 'registration in %s' % names_of(r), evs[0].where, 'an entry is added to the registry without holding a lock'):
                continue
            locks[r] = common
    if len(locks) < 2:
        return
    accesses(ctx, locks)
    for r, ls in locks.items():
        for l in ls:
            lock_shared(ctx, l)
    creg, sreg = list(cregs)[0], list(sregs)[0]
    clients(ctx, ci, cself, init, creg, locks[creg])
    servers(ctx, si, reg_fn, srv, sreg, locks[sreg])
    ctx.require('C16.locked', 8)


def lock_shared(ctx, l):
    """The lock is one object for all threads: created once with the class or module, never replaced."""
    if l.op != 'attr' or l.args[0].op != 'cls':
        return
    st = stores(ctx.p, l.args[1])
    ctx.check(not st, 'C16.lock', names_of(l), str(st[0][1]) if st else '', 'the lock of the registry is replaced at run time')


def accesses(ctx, locks):
    names = {names_of(r): r for r in locks}
    fns = []
    for key, fi in ctx.p.funcs.items():
        if '.tests' in fi.module.name:
            continue
        if any((isinstance(n, ast.Attribute) and n.attr in names) or (isinstance(n, ast.Name) and n.id in names) for n in ast.walk(fi.node)):
            fns.append(fi)
    rec = lambda e: e.recv in locks or any(a in locks for a in e.args) or e.kind in ('enter', 'exit') or e.kind == 'loop' and e.recv is not None and any(over(e.recv, r) for r in locks)
    for fi in fns:
        ip = ctx.interp(RP(record=rec, raising=False, opaque=opaque(ctx), max_states=1500, merge=False, want_loops=True))
        for p in feasible(ip.run(fi), locks):
            for e in walked(p.trace):
                for r in locks:
                    if e.recv is not None and (e.recv is r or over(e.recv, r)):
                        ctx.check(bool(locks[r] & set(e.locks)), 'C16.locked', 'iteration over %s in %s' % (names_of(r), e.fn), e.where, 'the registry is iterated over without holding its lock')
            evs = list(flat(p.trace))
            for i, e in enumerate(evs):
                r = e.recv if e.recv in locks else next((a for a in e.args if a in locks), None)
                if r is None or e.kind in ('enter', 'exit', 'getattr'):
                    continue
                ctx.check(bool(locks[r] & set(e.locks)), 'C16.locked', '%s of %s in %s' % (e.kind if e.kind != 'call' else e.name, names_of(r), e.fn), e.where,
                          'the registry is accessed without holding its lock')
                if adds(e):
                    atomic(ctx, p, evs, i, r, locks[r])
                if e.kind == 'call' and e.name in ('.clear', '.popitem', '.update'):
                    ctx.fail('C16.only-own', '%s in %s' % (e.name, e.fn), e.where, 'the registry is changed as a whole')
            escape(ctx, p, locks)
    # replaced as a whole
    for n, r in names.items():
        st = stores(ctx.p, n)
        ctx.check(not st, 'C16.only-own', 'store to %s' % n, str(st[0][1]) if st else '', 'the registry is replaced')


def walked(trace):
    for e in trace:
        if e.kind == 'loop':
            yield e
            for it in e.extra:
                yield from walked(it.trace)


def over(t, r):
    """Is t a view of the registry (not a copy)?"""
    if t.op in ('items', 'keys', 'values'):
        return t.args[0] is r or over(t.args[0], r)
    if t.op == 'call' and t.args[0] in ('.items', '.keys', '.values', 'iter', 'enumerate', 'zip', 'map', 'filter', 'reversed'):
        return any(x is r or over(x, r) for x in (t.args[1],) + tuple(t.args[2]) if x is not None)
    return False


def escape(ctx, p, locks):
    for r in locks:
        if p.val is not None and p.val is r:
            ctx.fail('C16.locked', 'return of %s' % names_of(r), '', 'the registry itself is handed out')


def feasible(paths, regs):
    """Without the paths on which a registered object is None (only clients and servers are ever registered)."""
    for p in paths:
        if any(c.op == 'same' and b is True and NONE in c.args and any(is_item(x, r) for x in c.args for r in regs) for c, b in p.facts.items()):
            continue
        if any(c.op == '=' and b is NONE and any(is_item(c.args[0], r) for r in regs) for c, b in p.facts.items()):
            continue
        yield p


def adds(e):
    return e.kind == 'setitem' or e.kind == 'call' and e.name == '.setdefault'


def key_of(e):
    return e.args[0] if e.args else None


def section(evs, i, ls):
    """Index at which the lock held at event i was acquired."""
    for j in range(i, -1, -1):
        if evs[j].kind == 'enter' and evs[j].recv in ls:
            return j
        if evs[j].kind == 'call' and evs[j].name == '.acquire' and evs[j].recv in ls:
            return j
    return 0


def present(p, reg, key):
    """True / False / None: what the path established about the key."""
    for c, b in p.facts.items():
        if c.op == 'in' and c.args[0] is key and c.args[1] is reg and isinstance(b, bool):
            return b
        if c.op == 'same' and isinstance(b, bool):
            x, y = c.args
            for u, v in ((x, y), (y, x)):
                if v is NONE and is_item(u, reg, key):
                    return not b
    return None


def is_item(t, reg, key=None):
    if t.op == 'item' and t.args[0] is reg:
        return key is None or t.args[1] is key
    if t.op == 'call' and t.args[0] in ('.get', '.setdefault', '.pop') and t.args[1] is reg and t.args[2]:
        return key is None or t.args[2][0] is key
    return False


def atomic(ctx, p, evs, i, reg, ls):
    e = evs[i]
    k = key_of(e)
    if e.kind == 'call':
        # atomic by itself, provided that the outcome is looked at
        return
    j = section(evs, i, ls)
    tested = [x for x in evs[j:i] if x.recv is reg and key_of(x) is k and (x.kind == 'contains' or x.kind == 'call' and x.name == '.get' or x.kind == 'getitem' or
                                                                          x.kind == 'raises')]
    ctx.check(bool(tested) and present(p, reg, k) is False, 'C16.check-then-add', '%s in %s' % (names_of(reg), e.fn), e.where,
              'an entry is added without having found the key absent in the same critical section')


def removes(e):
    return e.kind == 'del' or e.kind == 'call' and e.name == '.pop'


def entry_is(p, reg, key, obj):
    """Does the path establish that the registry's entry for key is this object?"""
    if getattr(p, 'reg_val', None) is obj:
        return True
    for c, b in p.facts.items():
        if c.op == 'same' and b is True and obj in c.args:
            o = c.args[0] if c.args[1] is obj else c.args[1]
            if is_item(o, reg, key) or pair(o, key):
                return True
    if p.st.facts.get(mk('=', mk('item', reg, key))) is obj:
        return True
    return False


def pair(v, k):
    """v and k are the two halves of one element of the registry's items."""
    return v.op == 'item' and k.op == 'item' and v.args[0] is k.args[0] and is_const(v.args[1]) and is_const(k.args[1]) and cval(v.args[1]) == 1 and cval(k.args[1]) == 0


def rec_all(reg):
    def rec(e):
        return e.recv is reg or reg in e.args or e.kind in ('enter', 'exit', 'raise') or e.kind == 'write' or e.kind == 'call' and e.name in ('.socket', '.close', '.connect', '.bind', 'zmq.Socket')
    return rec


def clients(ctx, ci, so, init, reg, ls):
    aname = init.node.args.args[1].arg
    # ---- construction
    addr = mk('sym', 'address', 'ext:bytes')
    key = None
    nraise = 0
    for text in (False, True):
        a = mk('sym', 'address', 'ext:str' if text else 'ext:bytes')
        for raising in (False, True):
            fail = {'@RPCClient.ensure_connection': ('BaseException*',), '@RPCClient.check_address': ('BaseException*',)} if raising else {}
            ip = ctx.interp(RP(record=rec_all(reg), raising=raising, fail=fail, nofail=('.close',), opaque=opaque(ctx), max_states=2500))
            for p in feasible(ip.run(init, self_val=so, args={aname: a}), (reg,)):
                evs = list(flat(p.trace))
                add = [e for e in evs if adds(e) and e.recv is reg]
                socks = [e for e in evs if e.kind == 'call' and e.name in ('.socket', 'zmq.Socket')]
                rem = [e for e in evs if removes(e) and e.recv is reg]
                pres = [c for c, b in p.facts.items() if c.op == 'in' and c.args[1] is reg and b is True]
                for e in add:
                    k = key_of(e)
                    ctx.check(good_key(ip, p, k, a, text), 'C16.key', 'client of %s address' % ('str' if text else 'bytes'), e.where,
                              'the key of a client is %s, not the current thread and the address' % short(k))
                    if not text:
                        key = k
                was_there = any(present(p, reg, key_of(e)) is True for e in evs if e.recv is reg and key_of(e) is not None and e.kind in ('contains', 'call')) and not add
                if p.kind == 'return':
                    ctx.check(len(add) == 1 and not rem, 'C16.registered', 'constructed client', evs[-1].where if evs else init.key, 'a constructed client is registered %d times and removed %d times' % (len(add), len(rem)))
                    ctx.check(not was_there, 'C16.duplicate', 'second client', init.key, 'a second client is constructed for the same thread and address')
                    if add:
                        field = [n for (o, kd, n), v in p.st.heap.items() if o is so and kd == 'a' and v is key_of(add[0])]
                        ctx.check(bool(field), 'C16.key', 'key field', init.key, 'the key of the client is not kept')
                elif was_there:
                    nraise += 1
                    ctx.check(not rem and not socks, 'C16.duplicate', 'second client', exc_where(p.val)[1], 'a rejected second client opens a socket or changes the registry')
                    if not raising:
                        ctx.check(exc_name(p) == 'KeyError', 'C16.duplicate', 'error of a second client', exc_where(p.val)[1], 'a second client is rejected with %s' % short(p.val))
                elif add:
                    nraise += 1
                    gone = rem and key_of(rem[-1]) is key_of(add[-1])
                    ctx.check(gone, 'C16.failed-construction', 'entry left by %s' % exc_where(p.val)[0], exc_where(p.val)[1],
                              'a client whose construction fails stays in the registry (%s raised at %s)' % (short(p.val, 40), exc_where(p.val)[1]))
                    for s in socks:
                        v = s.value
                        if v is None:
                            continue
                        if exc_where(p.val)[2] in ('.setsockopt', '.setsockopt_string', '.set', '.set_hwm') and not any(e.kind == 'write' and e.value is v for e in evs):
                            continue        # setting an option of a socket that nothing has taken yet
                        closed = any(e.kind == 'call' and e.name == '.close' and (e.recv is v) for e in evs)
                        ctx.check(closed, 'C16.failed-construction', 'socket left by %s' % exc_where(p.val)[0], exc_where(p.val)[1],
                                  'a client whose construction fails leaves its socket open')
                else:
                    ctx.check(not socks, 'C16.failed-construction', 'socket before registration', exc_where(p.val)[1], 'a socket is opened before the client is registered, and left open')
                if socks and add:
                    ctx.check(evs.index(socks[0]) > evs.index(add[0]) or p.kind == 'return', 'C16.order', 'socket', socks[0].where, 'the socket is opened before the client is registered')
    if not nraise:
        raise AnalysisBroken('no failing construction of a client found')
    ctx.require('C16.failed-construction', 4)
    # ---- lookup
    get = ctx.p.find_method(ci.key, 'get_client')
    gname = get.node.args.args[-1].arg
    for text in (False, True):
        a = mk('sym', 'address', 'ext:str' if text else 'ext:bytes')
        ip = ctx.interp(RP(record=lambda e: e.recv is reg or e.kind == 'new' or e.kind == 'call' and e.name.startswith('@RPCClient'), raising=False,
                           opaque=lambda f: opaque(ctx)(f) or f.key == init.key, opaque_class=lambda k: k == ci.key, merge=False))
        seen = set()
        for p in feasible(ip.run(get, args={gname: a}), (reg,)):
            evs = [e for e in flat(p.trace) if e.recv is reg and key_of(e) is not None]
            if not evs:
                ctx.fail('C16.lookup', 'get_client', get.key, 'a client is returned without looking it up')
                continue
            k = key_of(evs[0])
            ctx.check(good_key(ip, p, k, a, text), 'C16.key', 'lookup of %s address' % ('str' if text else 'bytes'), evs[0].where,
                      'clients are looked up as %s, not by current thread and address' % short(k))
            pr = present(p, reg, k)
            seen.add(pr)
            if p.kind == 'raise':
                ctx.fail('C16.lookup', 'get_client raises', exc_where(p.val)[1], 'looking up a client raises %s' % short(p.val))
            elif pr is True:
                ctx.check(is_item(p.val, reg, k), 'C16.lookup', 'registered client', evs[0].where, 'for a registered address %s is returned, not the registered client' % short(p.val))
            else:
                t = ip.type_of(p.st, p.val)
                ctx.check(t == ci.key and not is_item(p.val, reg), 'C16.lookup', 'new client', evs[0].where, 'for an unknown address %s is returned, not a new client' % short(p.val))
                made = [e for e in flat(p.trace) if e.kind == 'new' or e.kind == 'call' and e.name.endswith('__init__')]
                args = [x for e in made for x in e.args]
                ctx.check(any(x is a or is_encoded(x, a) for x in args) or not made, 'C16.lookup', 'address of new client', evs[0].where, 'a new client is made for another address')
        ctx.check(True in seen and (False in seen), 'C16.lookup', 'get_client', get.key, 'lookup does not depend on the registry')
    # ---- removal
    removal(ctx, ci, reg, ls, keyfields(ctx, init, so, reg))
    close(ctx, ci, so, reg)


def exc_name(p):
    return p.val.args[0] if p.val.op == 'exc' else p.val.args[0] if p.val.op == 'obj' else short(p.val).strip('<>')


def is_encoded(x, a):
    return x.op == 'call' and x.args[0] == '.encode' and x.args[1] is a


def good_key(ip, p, k, a, text):
    if k.op != 'tuple' or len(k.args) != 2:
        return False
    parts = list(k.args)
    ids = [x for x in parts if is_ident(x)]
    if len(ids) != 1:
        return False
    other = [x for x in parts if x is not ids[0]][0]
    if other is a:
        return not text
    return is_encoded(other, a)


def keyfields(ctx, init, so, reg):
    """Names of the fields in which the constructor keeps its key."""
    ip = ctx.interp(RP(record=rec_all(reg), raising=False, opaque=opaque(ctx), merge=False))
    names = None
    for p in ip.run(init, self_val=so, args={init.node.args.args[1].arg: mk('sym', 'address', 'ext:bytes')}):
        if p.kind == 'return':
            ks = [key_of(e) for e in flat(p.trace) if adds(e) and e.recv is reg]
            n = {n for (o, kd, n), v in p.st.heap.items() if o is so and kd == 'a' and v in ks}
            names = n if names is None else names & n
    return names or set()


def removal(ctx, ci, reg, ls, fields):
    n = 0
    for key, fi in ctx.p.funcs.items():
        if '.tests' in fi.module.name or fi.cls is not None and fi.name == '__init__':
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr == names_of(reg) for x in ast.walk(fi.node)):
            continue
        ip = ctx.interp(RP(record=rec_all(reg), raising=False, opaque=opaque(ctx), merge=False))
        given = assumed(State(), [(same_atom(sym(a.arg), NONE), False) for a in fi.node.args.args])
        for p in ip.run(fi, st=given):
            for e in flat(p.trace):
                if not (removes(e) and e.recv is reg):
                    continue
                n += 1
                k = key_of(e)
                objs = {o for c, b in p.facts.items() if c.op == 'same' and b is True for o in c.args if entry_is(p, reg, k, o)}
                objs = [o for o in objs if not is_item(o, reg)]
                added = [x for x in flat(p.trace) if adds(x) and x.recv is reg and key_of(x) is k]
                objs = objs or [x.value for x in added]
                ctx.check(not any(is_ident(x) for x in subterms(k)) or bool(added) or
                          any(c.op in ('eq', 'same') and b is True and any(is_ident(x) for x in c.args) and any(x.op == 'attr' and any(x.args[0] is o for o in objs) for x in c.args) for c, b in p.facts.items()),
                          'C16.only-own', 'key in %s' % e.fn, e.where, 'an entry is removed under the thread that runs this, not under the one the object was registered for')
                ctx.check(bool(objs), 'C16.only-own', 'removal in %s' % e.fn, e.where, 'an entry is removed from the registry that need not be the given object')
                if k.op == 'attr' and objs:
                    ctx.check(any(k.args[0] is o for o in objs), 'C16.only-own', 'key in %s' % e.fn, e.where, 'the removed key is not that of the object')
                    if fields is not None:
                        ctx.check(k.args[1] in fields, 'C16.only-own', 'key field in %s' % e.fn, e.where, 'entries are removed by the field %s, under which none was added' % k.args[1])
    for f in fields or ():
        for fi, m, node in stores(ctx.p, f):
            ctx.check(fi is not None and fi.name in ('__init__', 'register_server'), 'C16.only-own', 'store to %s' % f, '%s:%s' % (m, getattr(node, 'lineno', '?')),
                      'the key of a registered object is changed')
    ctx.check(n > 0, 'C16.only-own', 'removal from %s' % names_of(reg), ci.key, 'nothing removes an entry from the registry')


def close(ctx, ci, so, reg):
    fi = ctx.p.find_method(ci.key, 'close')
    ip = ctx.interp(RP(record=rec_all(reg), raising=False, opaque=opaque(ctx), merge=False))
    removed = False
    for p in ip.run(fi, self_val=so):
        evs = list(flat(p.trace))
        if p.kind == 'raise':
            continue
        ctx.check(any(e.kind == 'call' and e.name == '.close' and e.recv is not None and e.recv.op == 'attr' and e.recv.args[0] is so for e in evs), 'C16.close', 'socket', fi.key,
                  'closing a client leaves its socket open')
        rem = [e for e in evs if removes(e) and e.recv is reg]
        looked = [e for e in evs if e.recv is reg and key_of(e) is not None]
        other = any(c.op == 'same' and b is False and so in c.args for c, b in p.facts.items()) or any(present(p, reg, key_of(e)) is False for e in looked)
        removed |= bool(rem)
        ctx.check(bool(looked), 'C16.close', 'entry', fi.key, 'closing a client leaves it in the registry')
        for e in rem:
            ctx.check(entry_is(p, reg, key_of(e), so), 'C16.close', 'removed entry', e.where, 'closing a client removes an entry that need not be its own')
    ctx.check(removed, 'C16.close', 'entry removed', fi.key, 'closing a client leaves it in the registry')


def servers(ctx, si, reg_fn, srv, reg, ls):
    fields = None
    npresent = 0
    ip = ctx.interp(RP(record=rec_all(reg), raising=False, opaque=opaque(ctx), merge=False))
    for p in feasible(ip.run(reg_fn), (reg,)):
        evs = list(flat(p.trace))
        add = [e for e in evs if adds(e) and e.recv is reg and not (e.kind == 'call' and present(p, reg, key_of(e)) is True)]
        rem = [e for e in evs if removes(e) and e.recv is reg]
        for e in add:
            ctx.check(is_ident(key_of(e)), 'C16.key', 'server', e.where, 'a server is registered under %s, not the current thread' % short(key_of(e)))
            ctx.check(e.value is srv or e.kind == 'call', 'C16.key', 'registered server', e.where, 'something other than the given server is registered')
        looked = [key_of(e) for e in evs if e.recv is reg and key_of(e) is not None]
        there = any(present(p, reg, k) is True for k in looked) and not add
        ctx.check(not rem, 'C16.duplicate', 'removal at registration', reg_fn.key, 'registering a server removes another')
        if p.kind == 'return':
            ctx.check(not there or any(entry_is(p, reg, k, srv) for k in looked), 'C16.duplicate', 'second server', reg_fn.key, 'registering a second server of a thread is accepted')
            if add:
                n = {n for (o, kd, n), v in p.st.heap.items() if o is srv and kd == 'a' and v is key_of(add[0])}
                fields = n if fields is None else fields & n
            else:
                ok = any(c.op in ('eq', 'same') and b is True and any(is_ident(x) for x in c.args) and any(x.op == 'attr' and x.args[0] is srv for x in c.args) for c, b in p.facts.items()) or \
                    any(entry_is(p, reg, k, srv) for k in looked)
                ctx.check(ok, 'C16.registered', 'unregistered server', reg_fn.key, 'registering returns although the server has not been registered for this thread')
        elif there:
            npresent += 1
            ctx.check(exc_name(p) == 'KeyError', 'C16.duplicate', 'error of a second server', exc_where(p.val)[1], 'a second server is rejected with %s' % short(p.val))
            changed = [e for e in evs if e.kind == 'write' and e.recv is srv]
            ctx.check(not changed, 'C16.duplicate', 'state of a second server', exc_where(p.val)[1], 'a rejected server is left changed (%s)' % ', '.join(e.name for e in changed))
    ctx.check(npresent > 0, 'C16.duplicate', 'second server', reg_fn.key, 'a second server of a thread is not rejected')
    get = ctx.p.find_method(si.key, 'get_server')
    ip = ctx.interp(RP(record=rec_all(reg), raising=False, opaque=opaque(ctx), merge=False))
    seen = set()
    for p in feasible(ip.run(get), (reg,)):
        ks = [key_of(e) for e in flat(p.trace) if e.recv is reg and key_of(e) is not None]
        ok = len(ks) > 0 and all(is_ident(k) for k in ks)
        ctx.check(ok, 'C16.lookup', 'server', get.key, 'servers are not looked up by the current thread')
        if p.kind == 'raise':
            ctx.fail('C16.lookup', 'get_server raises', exc_where(p.val)[1], 'looking up a server raises %s' % short(p.val))
        elif ok:
            pr = present(p, reg, ks[0])
            seen.add(pr)
            if pr is False:
                ctx.check(p.val is NONE, 'C16.lookup', 'no server', get.key, '%s is returned in a thread without server' % short(p.val))
            else:
                ctx.check(all(is_item(v, reg, ks[0]) for v in alts(p.val)) or pr is None and all(v is NONE or is_item(v, reg, ks[0]) for v in alts(p.val)),
                          'C16.lookup', 'own server', get.key, '%s is returned, not the server of the thread' % short(p.val))
    removal(ctx, si, reg, ls, fields or set())
    ctx.require('C16.duplicate', 4)

