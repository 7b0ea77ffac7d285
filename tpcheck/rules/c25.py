import ast
from .base import *
from .c14 import is_clock

EXPLANATION = """
The methods of the display handler are interpreted on an unknown handler.  Every use of the pending records holds the one lock, a record that is
emitted is inserted and the records are sorted by creation time before the lock is let go, the thread takes records from the front only, only those
older than the delay, and writes each of them once in the order taken, and never ends; what is pending when the process exits is taken out together and
written once.  The header is made of the three names of the record and cached under all of them.
"""
ASSUMPTIONS = ['StreamHandler.emit does not fail (it handles errors itself)', 'records have a creation time', 'the process does not exit while the thread writes records it has taken out']


def base_emit(e):
    return e.kind == 'call' and (e.name in ('logging.StreamHandler.emit', 'logging.Handler.emit') or e.name.endswith('StreamHandler.emit') or e.name == '.emit')


def emitted(e):
    """The record that a call of the base class's emit writes."""
    if e.name == '.emit':
        return e.args[0] if e.args else None
    return e.args[-1] if e.args else None


def field_of(t, self_ids):
    """Name of the handler's field that a value is (a version of)."""
    while t is not None and hasattr(t, 'op'):
        if t.op == 'attr' and t.args[0] in self_ids:
            return t.args[1]
        if t.op in ('loopvar', 'mu', 'at', 'upd', 'phi'):
            t = next((a for a in t.args if hasattr(a, 'op') and a.op in ('attr', 'loopvar', 'mu', 'at', 'upd', 'alloc')), None)
            continue
        return None
    return None


def field_in(t, name):
    return any(hasattr(x, 'op') and x.op == 'attr' and x.args[1] == name for x in subterms(t))


class Handler:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ci = cls(ctx, 'RPCLogHandler')

    def method(self, name):
        m = self.ctx.p.find_method(self.ci.key, name)
        if m is None:
            raise AnalysisBroken('RPCLogHandler.%s not found' % name)
        return m

    def run(self, m, field=None, **kw):
        nofail = ('time.time', 'time.sleep', 'time.monotonic', '.append', '.sort', '.pop', '.clear', '.copy', 'len', 'list', 'sorted', 'bisect.insort', '.acquire', '.release', '.insert', '.wait', '.extend', 'min', 'max', 'tuple', 'operator.attrgetter', 'bisect.insort_right')
        ip = self.ctx.interp(RP(record=lambda e: e.kind in ('call', 'write', 'setitem', 'del', 'enter', 'exit', 'read', 'getitem', 'loop', 'break'), opaque=lambda f: False, want_loops=True, merge=False, max_states=3000,
                                reads=lambda b, n: n == field, raises=lambda e, st: () if base_emit(e) or e.kind != 'call' or e.name in nofail else None))
        return ip, ip.run(m, **kw)


def sort_key_ok(ip, p, e, items_name):
    """Does a sort order by creation time, oldest first?"""
    kw = dict(e.kwargs)
    rev = kw.get('reverse')
    if rev is not None and not (is_const(rev) and not cval(rev)):
        return False
    return created_key(ip, p, kw.get('key'))


def created_key(ip, p, key):
    if key is None:
        return False
    if key.op == 'call' and key.args[0] == 'operator.attrgetter':
        return key.args[2] == (const('created'),)
    r = sym('some record')
    try:
        out = [v for _, v in ip.call(p.st.fork(), key, [r], [], None, None)]
    except Exception:
        fi = next((ip.p.funcs[x.args[0]] for x in subterms(key) if hasattr(x, 'op') and x.op in ('func', 'closure') and x.args[0] in ip.p.funcs), None)
        if fi is None:
            return False
        names = [a.arg for a in fi.node.args.args]
        out = [q.val for q in ip.run(fi, args={names[0]: r})] if names else []
    return bool(out) and all(v.op == 'attr' and v.args[0] is r and v.args[1] == 'created' for v in out)


def pending(ctx):
    """(name of the field with the pending records, its lock) from emit."""
    h = Handler(ctx)
    m = h.method('emit')
    rec = sym('record')
    ip, paths = h.run(m, args={m.node.args.args[1].arg: rec})
    names = set()
    locks = set()
    for p in paths:
        evs = list(flat(p.trace))
        if not ctx.check(p.kind == 'return', 'C25.emit', 'raise', exc_where(p.val)[1], 'emit fails with %s' % short(p.val, 60)):
            continue
        ins = [e for e in evs if e.kind == 'call' and (e.name == '.append' and e.args == (rec,) or e.name == 'bisect.insort' or e.name == 'bisect.insort_right') and (e.args[-1] is rec)]
        made = [e for e in evs if e.kind == 'write' and e.value is not None and e.value.op == 'call' and e.value.args[0] == 'sorted' and len(e.value.args[2]) == 1 and adds_one(p, e.value.args[2][0], e.name, rec)]
        if made and not ins:
            e = made[0]
            names.add(e.name)
            locks.add(tuple(e.locks))
            ctx.check(bool(e.locks), 'C25.lock', 'emit', e.where, 'a record is added to the pending ones without the lock')
            kw = dict(e.value.args[3])
            ctx.check(len(made) == 1 and kw.get('reverse', FALSE) is FALSE and created_key(ip, p, kw.get('key')), 'C25.order', 'emit', e.where, 'a record is not inserted by creation time')
            continue
        if not ctx.check(len(ins) == 1, 'C25.emit', 'insert', m.key, 'a record is added %d times to the pending ones' % len(ins)):
            continue
        for x in evs:
            ctx.check(not base_emit(x), 'C25.once', 'emit', x.where, 'a record that is added to the pending ones is written at once as well')
            if x.kind == 'call' and x.name == '.acquire':
                z = dict(x.kwargs)
                t = z.get('timeout', x.args[1] if len(x.args) > 1 else None)
                bl = z.get('blocking', x.args[0] if x.args else TRUE)
                ctx.check(bl is TRUE and (t is None or is_const(t) and cval(t) == -1), 'C25.once', 'acquire', x.where, 'a record is given up when the lock is not free at once')
        e = ins[0]
        lst = e.recv if e.name == '.append' else e.args[0]
        f = [x.args[1] for x in subterms(lst) if hasattr(x, 'op') and x.op == 'attr']
        names |= set(f[:1])
        if not ctx.check(bool(e.locks) and bool(f), 'C25.lock', 'emit', e.where, 'a record is added to the pending ones without the lock'):
            continue
        locks |= {tuple(e.locks)}
        ctx.check(not any(x.op == 'call' for x in e.locks), 'C25.lock', 'emit lock', e.where, 'each use of the pending records takes a lock of its own')
        i = evs.index(e)
        if e.name == '.append':
            srt = [x for x in evs[i:] if x.kind == 'call' and (x.name == '.sort' and field_in(x.recv, f[0]) or x.name == 'sorted' and x.args and field_in(x.args[0], f[0]))]
            lets = [x for x in evs[i:] if x.kind == 'exit']
            ok = bool(srt) and sort_key_ok(ip, p, srt[0], f[0])
            ctx.check(ok, 'C25.order', 'emit', e.where, 'a record is added without sorting the pending ones by creation time, oldest first')
            if srt:
                ctx.check(bool(srt[0].locks) and (not lets or evs.index(srt[0]) < evs.index(lets[0])), 'C25.order', 'unsorted', srt[0].where, 'the lock is let go while the pending records are not sorted')
                if srt[0].name == 'sorted':
                    ctx.check(any(x.kind == 'write' and x.name == f[0] and x.value is srt[0].value for x in evs), 'C25.order', 'sorted copy', srt[0].where, 'the sorted records are not kept')
        else:
            ctx.check(created_key(ip, p, dict(e.kwargs).get('key')), 'C25.order', 'emit', e.where, 'a record is not inserted by creation time')
    if not ctx.check(len(names) == 1 and len(locks) == 1, 'C25.emit', 'pending', m.key, 'records are kept in %s under %d locks' % (sorted(names), len(locks))):
        return None
    return names.pop(), set(locks.pop())


def adds_one(p, t, field, rec):
    """Is t the records of a field and this one?"""
    if t.op == 'bin' and t.args[0] == '+':
        a, b = t.args[1], t.args[2]
        if b.op == 'alloc':
            b = p.st.heap.get((b, 'seq', None), b)
        return direct(a, field) and tuple(b.args) == (rec,)
    if t.op == 'alloc':
        t = p.st.heap.get((t, 'seq', None), t)
    return len(t.args) == 2 and any(x is rec for x in t.args) and any(x is not rec and x.op == 'star' and direct(x.args[0], field) for x in t.args)


def under_lock(ctx, where, evs, field, locks, what):
    for e in evs:
        touch = e.kind in ('write', 'read') and e.name == field or e.kind in ('call', 'getitem', 'setitem', 'del') and e.recv is not None and direct(e.recv, field)
        if touch:
            ctx.check(bool(set(e.locks) & locks), 'C25.lock', '%s %s' % (what, e.name), e.where, 'the pending records are used without the lock')


def direct(t, field):
    """Is t the list itself (not something made of it)?"""
    while hasattr(t, 'op'):
        if t.op == 'attr':
            return t.args[1] == field
        if t.op in ('loopvar', 'mu', 'at'):
            nxt = [a for a in t.args if hasattr(a, 'op')]
            if not nxt:
                return False
            t = nxt[0] if nxt[0].op in ('attr', 'loopvar', 'mu', 'at') else nxt[-1]
            continue
        return False
    return False


AGES = ('delay',)


def is_age(c, b, first, clocks=None):
    """Does the fact say that the first record is older than the delay?"""
    if c.op != 'lt' or not isinstance(b, bool):
        return False
    its, k = lt_parts(c)
    if not b:
        its = [(t, -x) for t, x in its]
        k = -k
    cr = [(t, x) for t, x in its if t.op == 'attr' and t.args[1] == 'created']
    ck = [(t, x) for t, x in its if is_clock(t)]
    dl = [(t, x) for t, x in its if (t, x) not in cr and (t, x) not in ck]
    if clocks is not None and not all(t in clocks for t, _ in ck):
        return False
    return len(cr) == 1 and cr[0][1] == 1 and len(ck) == 1 and ck[0][1] == -1 and cr[0][0].args[0] is first and all(x > 0 for _, x in dl) and (bool(dl) or k > 0)


def deep(trace):
    for e in trace:
        if e.kind == 'loop':
            yield e
            for it in e.extra:
                for x in deep(it.trace):
                    yield x


def thread_method(ctx, field=None):
    """The method that the handler's thread runs, and the one registered at exit."""
    h = Handler(ctx)
    init = h.method('__init__')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write'), opaque=lambda f: False, raising=False, max_states=2000))
    target = at = None
    for p in ip.run(init):
        if p.kind != 'return':
            continue
        evs = list(flat(p.trace))
        th = [e for e in evs if e.kind == 'call' and e.name == 'threading.Thread']
        started = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == '.start']
        if ctx.check(bool(th) and bool(started), 'C25.thread', 'start', init.key, 'the thread that writes records is not started with the handler'):
            kw = dict(th[0].kwargs)
            target = kw.get('target', th[0].args[1] if len(th[0].args) > 1 else None)
            dm = kw.get('daemon') is TRUE or any(e.kind == 'write' and e.name == 'daemon' and e.value is TRUE for e in evs)
            ctx.check(dm, 'C25.thread', 'daemon', th[0].where, 'the thread that writes records keeps the process from exiting, and so from flushing')
            if field is not None:
                mine = [e for e in evs[:started[0]] if e.kind == 'write' and e.name == field]
                ctx.check(bool(mine), 'C25.thread', 'own', init.key, 'all handlers share one list of pending records')
            for e in evs:
                if e.kind == 'write' and e.name in AGES and is_const(e.value):
                    ctx.check(isinstance(cval(e.value), (int, float)) and cval(e.value) > 0, 'C25.take', 'delay', e.where, 'the holding delay is %s' % short(e.value))
            late = [e for e in evs[started[0]:] if e.kind == 'write' and e.name in ('records', 'record_lock', 'delay')]
            ctx.check(not late, 'C25.thread', 'late', init.key, 'the thread is started before the handler has %s' % ', '.join(e.name for e in late))
        rg = [e for e in evs if e.kind == 'call' and e.name == 'atexit.register']
        if ctx.check(bool(rg), 'C25.exit', 'registered', init.key, 'pending records are not flushed at exit'):
            at = rg[0].args[0]
    return bound_method(ctx, target), bound_method(ctx, at)


def bound_method(ctx, t):
    if t is None:
        return None
    for x in subterms(t):
        if hasattr(x, 'op') and x.op in ('func', 'closure') and x.args[0] in ctx.p.funcs:
            return ctx.p.funcs[x.args[0]]
    if t.op == 'bound':
        n = t.args[0].args[0] if hasattr(t.args[0], 'args') else None
        if n in ctx.p.funcs:
            return ctx.p.funcs[n]
    if t.op == 'attr':
        ci = cls(ctx, 'RPCLogHandler')
        return ctx.p.find_method(ci.key, t.args[1])
    raise AnalysisBroken('%s is not understood as a method' % short(t, 60))


def poll(ctx, m, field, locks):
    h = Handler(ctx)
    ip, paths = h.run(m, field)
    n = 0
    for p in paths:
        if not ctx.check(p.kind == 'endless', 'C25.thread', 'end', exc_where(p.val)[1] if p.kind == 'raise' else m.key, 'the thread that writes records ends%s' % (' with %s' % short(p.val, 60) if p.kind == 'raise' else '')):
            continue
        under_lock(ctx, m.key, flat(p.trace), field, locks, 'thread')
        for l in p.trace:
            if l.kind != 'loop':
                continue
            for it in l.extra:
                n += take(ctx, m, it, field)
    if not n:
        raise AnalysisBroken('the thread takes out no records')


def take(ctx, m, it, field):
    evs = list(flat(it.trace))
    pops = []
    for scope in [it] + [a for l in deep(it.trace) for a in l.extra]:
        for e in scope.trace:
            if e.kind == 'call' and e.name == '.pop' and direct(e.recv, field):
                pops.append((e, scope))
            elif e.kind == 'write' and e.name == field and taken_by_filter(it, e, field):
                pops.append((None, e))
            elif e.kind in ('write', 'del', 'setitem') and (e.name == field or e.recv is not None and direct(e.recv, field)) or e.kind == 'call' and direct(e.recv, field) and e.name in ('.remove', '.clear', '.reverse', '.insert'):
                ctx.fail('C25.take', e.name, e.where, 'pending records are changed by %s' % e.name)
    outs = [e for e in evs if base_emit(e)]
    filtered = [e for k, e in pops if k is None]
    pops = [x for x in pops if x[0] is not None]
    for e, scope in pops:
        ctx.check(e.args == (const(0),), 'C25.order', 'pop', e.where, 'a record is not taken out at the front')
        first = [x for x in subterms(mk('tuple', *[c for c in scope.facts])) if hasattr(x, 'op') and x.op == 'attr' and x.args[1] == 'created']
        now = {x.value for x in evs if x.kind == 'call' and x.value is not None and is_clock(x.value)}
        ok = any(is_age(c, b, c_first(c), now) for c, b in scope.facts.items())
        ctx.check(ok, 'C25.take', 'age', e.where, 'a record is taken out although it is not known to be older than the delay')
    if not pops and not filtered:
        return 0
    vals = {e.value for e, _ in pops} | {x for e in filtered for x in subterms(e.value) if hasattr(x, 'op') and direct(x, field)}
    loops = [l for l in deep(it.trace) if any(base_emit(e) for a in l.extra for e in a.trace)]
    collected = [e for e in evs if e.kind == 'call' and e.name in ('.append', '.insert', '.appendleft') and any(v in e.args for v in vals)]
    for e in collected:
        ctx.check(e.name == '.append', 'C25.order', 'collect', e.where, 'records are not kept in the order they were taken out')
    if not outs:
        empty = any(c.op in ('alloc',) and b is False or c.op == 'lt' and b is False and positive_len(c) or c.op == 'eq' and b is True and 'len(' in show(c) and '0' in show(c) for c, b in it.facts.items()) or \
            any(c.op == 'truth' and b is False for c, b in it.facts.items())
        ctx.check(empty, 'C25.once', 'lost', m.key, 'records that were taken out are not written')
        return 1
    for l in loops:
        again = [x for x in l.recv.args if hasattr(x, 'op') and x.op == 'star'] if l.recv is not None and l.recv.op == 'list' else []
        ctx.check(len(again) == len(set(again)), 'C25.once', 'collected', l.where, 'what was written before is written again with the records taken out later')
        ctx.check(not (l.recv is not None and l.recv.op == 'call' and l.recv.args[0] in ('reversed', 'sorted')), 'C25.order', 'reversed', l.where, 'records are written in another order than they were taken out')
        for a in l.extra:
            k = [e for e in a.trace if base_emit(e)]
            ctx.check(len(k) == 1, 'C25.once', 'write', l.where, 'a record that was taken out is written %d times' % len(k))
            for e in k:
                v = emitted(e)
                ctx.check(v is not None and any(mentions(v, x) for x in vals), 'C25.once', 'what', e.where, '%s is written, not the record that was taken out' % short(v, 60))
    ctx.check(len(loops) == 1, 'C25.once', 'loops', m.key, 'records that were taken out are written by %d loops' % len(loops))
    for e in outs:
        ctx.check(not e.locks, 'C25.lock', 'held', e.where, 'the lock is held while records are written') if False else None
    return 1


def taken_by_filter(it, e, field):
    """records = records[len(old):] where old are those of the (sorted) records that are older than the delay."""
    v = e.value
    if counted(it, v, field):
        return True
    if v.op != 'item' or not direct(v.args[0], field) or not show(v.args[1]).startswith('slice(len(') or not show(v.args[1]).endswith(', None, None)'):
        return False
    loops = [l for l in deep(it.trace) if l.recv is not None and any(base_emit(x) for a in l.extra for x in a.trace)]
    comps = [x for l in loops for x in subterms(l.recv) if hasattr(x, 'op') and x.op == 'comp']
    if not loops:
        return True         # nothing old
    for c in comps:
        el = c.args[0]
        if el.op == 'elem' and direct(el.args[0], field) and direct(c.args[1], field) and len(c.args) > 2:
            if any(is_age(a, b, el) for conj in c.args[2].args[0] for a, b in conj):
                return True
    return False


def counted(it, v, field):
    """records = records[n:], after n was counted up over records older than the delay, and records[:n] are written."""
    if v.op != 'item' or not direct(v.args[0], field) or v.args[1].op != 'slice' or v.args[1].args[0].op != 'mu' or v.args[1].args[1] is not NONE or v.args[1].args[2] is not NONE:
        return False
    n = v.args[1].args[0]
    first = mk('item', v.args[0], n)
    count = [l for l in deep(it.trace) if l.recv is None and l.extra and all(any(is_age(c, b, first) for c, b in a.facts.items()) for a in l.extra)]
    loops = [l for l in deep(it.trace) if l.recv is not None and any(base_emit(x) for a in l.extra for x in a.trace)]
    return bool(count) and all(l.recv.op == 'item' and l.recv.args[0] is v.args[0] and l.recv.args[1].op == 'slice' and l.recv.args[1].args[0] in (NONE, const(0)) and l.recv.args[1].args[1] is n for l in loops)


def positive_len(c):
    its, k = lt_parts(c)
    return len(its) == 1 and 'len' in its[0][0].op + str(its[0][0].args[:1]) and its[0][1] == -1 and k == 0


def c_first(c):
    if c.op != 'lt':
        return None
    for t, x in lt_parts(c)[0]:
        if t.op == 'attr' and t.args[1] == 'created':
            f = t.args[0]
            return f if f.op == 'item' and f.args[1] is const(0) else None
    return None


def flush(ctx, m, field, locks):
    h = Handler(ctx)
    ip, paths = h.run(m, field)
    for p in paths:
        if not ctx.check(p.kind == 'return', 'C25.exit', 'raise', exc_where(p.val)[1] if p.kind == 'raise' else m.key, 'flushing ends with %s' % short(p.val, 60)):
            continue
        evs = list(flat(p.trace))
        under_lock(ctx, m.key, evs, field, locks, 'flush')
        reads = [i for i, e in enumerate(evs) if e.kind == 'read' and e.name == field]
        clears = [i for i, e in enumerate(evs) if e.kind == 'write' and e.name == field and e.value.op == 'list' and not e.value.args or e.kind == 'call' and e.name == '.clear' and direct(e.recv, field) or e.kind == 'del' and direct(e.recv, field)]
        loops = [l for l in p.trace if l.kind == 'loop' and any(base_emit(e) for a in l.extra for e in a.trace)]
        pops = [e for e in evs if e.kind == 'call' and e.name == '.pop' and direct(e.recv, field)]
        none = [c for c, b in p.facts.items() if b is False and field_in(c, field)]
        if not ctx.check(len(loops) == 1 or bool(none) and not loops and not clears, 'C25.exit', 'written', m.key, 'what is pending at exit is written by %d loops' % len(loops)):
            continue
        if not loops:
            continue
        l = loops[0]
        for a in l.extra:
            k = [e for e in a.trace if base_emit(e)]
            ctx.check(len(k) == 1, 'C25.exit', 'once', l.where, 'a record that is pending at exit is written %d times' % len(k))
            for e in k:
                v = emitted(e)
                ctx.check(v is not None and field_in(v, field), 'C25.exit', 'what', e.where, '%s is written at exit' % short(v, 60))
        if pops:
            ctx.check(all(e.args == (const(0),) for e in pops), 'C25.order', 'flush', m.key, 'what is pending at exit is not written oldest first')
            continue
        src = l.recv
        ctx.check(src is not None and field_in(src, field) and not any(hasattr(x, 'op') and (x.op == 'call' and x.args[0] in ('reversed', 'set')) for x in subterms(src)), 'C25.order', 'flush', l.where, 'what is pending at exit is written from %s' % short(src, 60))
        bad = [x for x in subterms(src) if hasattr(x, 'op') and x.op == 'item' and show(x.args[1]) not in ('slice(None, None, None)', 'slice(None, None)')]
        ctx.check(not bad, 'C25.exit', 'all', l.where, 'not all that is pending at exit is written')
        if ctx.check(bool(clears), 'C25.exit', 'clear', m.key, 'what is flushed stays pending, and is written again by the thread'):
            first = min(reads) if reads else 0
            lets = [i for i, e in enumerate(evs) if e.kind == 'exit' and first < i < clears[-1]]
            ctx.check(not lets, 'C25.exit', 'together', evs[clears[-1]].where, 'the lock is let go between taking what is pending and removing it')
            shared = not any(hasattr(x, 'op') and (x.op == 'item' or x.op == 'call' and x.args[0] in ('list', '.copy', 'tuple', 'sorted', 'copy.copy')) for x in subterms(src)) and not src.op in ('list', 'tuple')
            cl = evs[clears[-1]]
            ctx.check(not (shared and cl.kind in ('call', 'del')), 'C25.exit', 'emptied', cl.where, 'what is to be flushed is removed before it is written')


def header(ctx):
    ci = cls(ctx, 'RPCLogHandler')
    m = ctx.p.find_method(ci.key, 'get_thread_header') or ctx.p.find_method(ci.key, 'format')
    rec = sym('record')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'setitem', 'getitem'), opaque=lambda f: False, raising=False, merge=False, max_states=2000))
    n = 0
    NAMES = ('host_name', 'process_name', 'thread_name')
    for p in ip.run(m, args={m.node.args.args[1].arg: rec}):
        if p.kind != 'return':
            continue
        n += 1
        v = p.val
        used = names_of(v, rec)
        cur = [x for x in subterms(v) if hasattr(x, 'op') and x.op == 'call' and x.args[0] in ('threading.current_thread', 'threading.get_ident', 'threading.currentThread')]
        ctx.check(not cur or p.facts.get(mk('isnone', mk('attr', rec, 'thread'))) is True, 'C25.header', 'own thread', m.key, 'the header of a record may name the thread that writes it')
        for k in NAMES:
            ctx.check(k in used, 'C25.header', k, m.key, 'the header of a record does not name its %s' % k)
        for e in flat(p.trace):
            if e.kind == 'setitem' and e.args and e.value is not None:
                a, b = names_of(e.args[0], rec), names_of(e.value, rec)
                ctx.check(b <= a, 'C25.header', 'cache', e.where, 'headers are cached without regard to the %s' % ', '.join(sorted(b - a)))
    if not n:
        raise AnalysisBroken('the header of a record is never returned')
    fmt = ctx.p.find_method(ci.key, 'format')
    for p in ip.run(fmt, args={fmt.node.args.args[1].arg: rec}):
        if p.kind == 'return':
            ctx.check(set(NAMES) <= names_of(p.val, rec), 'C25.header', 'format', fmt.key, 'a record is displayed without its header')
            ctx.check(any(hasattr(x, 'op') and x.op == 'call' and x.args[0].endswith('.format') and (rec in x.args[2]) for x in subterms(p.val)), 'C25.header', 'message', fmt.key, 'a record is displayed without its message')


def names_of(t, rec):
    r = set()
    for x in subterms(t):
        if hasattr(x, 'op') and x.op in ('getattr', 'attr') and x.args[0] is rec:
            r.add(getattr(x.args[1], 'args', [x.args[1]])[0])
    return r & {'host_name', 'process_name', 'thread_name'}


def kept(v, field):
    """Does the new list hold all of the old one?"""
    for x in alts(v):
        if x.op == 'call' and x.args[0] in ('sorted', 'list', '.copy'):
            if not field_in(x, field):
                return False
        elif x.op == 'bin' or x.op in ('list', 'tuple'):
            if not field_in(x, field):
                return False
        elif not direct(x, field):
            return False
    return not any(hasattr(x, 'op') and x.op == 'item' and field_in(x.args[0], field) for x in subterms(v))


def reached(ctx, ms):
    ci = cls(ctx, 'RPCLogHandler')
    seen, todo = set(), list(ms)
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in ci.methods:
                todo.append(ci.methods[x.attr])
    return seen


def check(ctx):
    r = pending(ctx)
    target, at = thread_method(ctx, r[0] if r else None)
    if r is None:
        return
    field, locks = r
    if target is not None:
        poll(ctx, target, field, locks)
    ctx.check(at is not None, 'C25.exit', 'method', cls(ctx, 'RPCLogHandler').key, 'what is registered to be called at exit does not write the pending records')
    if at is not None:
        flush(ctx, at, field, locks)
    header(ctx)
    inside = reached(ctx, [m for m in (target, at) if m is not None])
    for name, m in sorted(cls(ctx, 'RPCLogHandler').methods.items()):
        if name != '__init__' and m.key not in inside:
            h = Handler(ctx)
            ip, paths = h.run(m, field)
            for p in paths:
                for e in flat(p.trace):
                    gone = e.kind == 'call' and e.recv is not None and direct(e.recv, field) and e.name in ('.pop', '.remove', '.clear') or e.kind in ('del', 'setitem') and e.recv is not None and \
                        direct(e.recv, field) or e.kind == 'write' and e.name == field and not kept(e.value, field)
                    ctx.check(not gone, 'C25.once', 'removed in %s' % name, e.where, '%s removes pending records without writing them' % name)
        if name != '__init__' and m not in (target, at):
            h = Handler(ctx)
            ip, paths = h.run(m, field)
            for p in paths:
                under_lock(ctx, m.key, flat(p.trace), field, locks, name)
    ctx.require('C25.lock', 6)
    ctx.require('C25.order', 3)
    ctx.require('C25.once', 1)
