import ast
from .base import *

EXPLANATION = """
The loop of the sender's thread is interpreted with everything it calls: it ends only for the item that closing queues, every
record taken from the queue is either sent or its failure caught, and the dictionary that is serialised has the record's own
fields, the message made by getMessage, no arguments and no exception objects, the formatted exception, and the host, process and
thread names under the names the display reads; no value is serialised that was not tried before.  The loop of the server's thread is
interpreted the same way: it ends only when the server is stopped, and a received record is handled unless filtering is on and its
level is below the logger's.
"""
ASSUMPTIONS = ['a PUSH socket that is connected delivers what is sent', 'handleError and print_exc do not fail', 'queue.Queue is first in first out',
               'records have the attributes that logging gives them, with attribute names that are strings']
NAMES = {'host_name': 'host_name', 'process_name': 'process_name', 'thread_name': None}
KEPT = ('levelno', 'levelname', 'name', 'created')


def method(ctx, ci, name):
    m = ctx.p.find_method(ci.key, name)
    if m is None:
        raise AnalysisBroken('%s.%s not found' % (ci.name, name))
    return m


def field(t):
    """Name of the field of the sender that a value was read from."""
    while t is not None and t.op in ('loopvar', 'phi') and t.args and hasattr(t.args[0], 'op') and t.op == 'loopvar':
        t = t.args[-1] if hasattr(t.args[-1], 'op') else t.args[0]
    return t


def is_item(t, rec, name):
    """Is t the named attribute of the record (or one of the alternatives made of it)?"""
    if t is None:
        return False
    if t.op == 'phi':
        return all(is_item(x, rec, name) for x in t.args)
    if t.op in ('item', 'get') and len(t.args) >= 2 and t.args[1] is const(name):
        return mentions(t.args[0], rec)
    if t.op == 'item' and t.args[1] is const(name):
        return True
    if t.op == 'attr' and t.args[1] == name:
        return t.args[0] is rec
    if t.op == 'getattr':
        return t.args[0] is rec and const(name) in t.args
    return False


def reads_item(t, rec, name):
    return any(hasattr(x, 'op') and is_item(x, rec, name) for x in subterms(t))


NOFAIL = ('traceback.print_exc', '.handleError', 'logging.Formatter', 'isinstance', '.recv', '.poll', '.register', '.items', '.keys', '.values', '.copy', 'zmq.Poller', '.close', 'items', 'list', 'dict', '.unregister', 'time.sleep')


def raises(ev, st):
    if ev.kind == 'call' and ev.name in ('.get', '.get_nowait'):
        if ev.name == '.get_nowait' or any(k == 'timeout' and v is not NONE or k == 'block' and v is not TRUE for k, v in ev.kwargs) or ev.name == '.get' and ev.args and ev.args[0] is FALSE \
                or ev.name == '.get' and len(ev.args) > 1 and ev.args[0] is TRUE:
            return ('queue.Empty',)
        return () if ev.name == '.get' and not ev.args and not ev.kwargs else None
    if ev.kind == 'call' and ev.name in ('repr', 'str', 'ascii') and ev.args and not is_const(ev.args[0]):
        return ('Exception',)                 # (of an object of the application)
    if (ev.kind in ('getitem', 'del') or ev.kind == 'call' and ev.name == '.pop') and ev.args and is_const(ev.args[0]):
        return ()                             # (records have the attributes that logging gives them)
    if ev.kind == 'call' and ev.name == 'object.__repr__':
        return ()
    if ev.kind == 'call' and ev.name in ('.encode', '.decode') and not any(hasattr(x, 'op') and x.op == 'call' and x.args[0] == 'json.dumps' and dict(x.args[3]).get('ensure_ascii', TRUE) is not TRUE
                                                                           for x in subterms(ev.recv) if ev.recv is not None) and ev.name == '.encode':
        return ()                             # (of the ASCII text of json.dumps)
    if ev.kind == 'call' and ev.name in NOFAIL:
        return ()
    return None


def tops(c):
    r = []
    for a in [c] + [a for a in c.args if hasattr(a, 'op')]:
        r.append(a)
        r.extend(x for x in a.args if hasattr(x, 'op'))
    return r


def sender(ctx):
    ci = cls(ctx, 'LogSender')
    run, handle, connect, init = (method(ctx, ci, n) for n in ('run', 'handle', 'connect', '__init__'))
    # --- records are queued
    qs = set()
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call', max_states=2000, opaque=lambda f: False))
    rec = sym('record')
    for p in ip.run(handle, args={handle.node.args.args[1].arg: rec}):
        puts = [e for e in flat(p.trace) if e.kind == 'call' and e.name in ('.put', '.put_nowait') and e.args and mentions(e.args[0], rec)]
        if p.kind == 'raise':
            continue
        filtered = any(isinstance(b, bool) and b is False and '.filter(' in show(c) for c, b in p.facts.items())
        ctx.check(bool(puts) or filtered, 'C23.queue', 'handle', handle.key, 'a record given to the sender is not queued')
        ctx.check(len(puts) <= 1, 'C23.queue', 'handle twice', handle.key, 'a record given to the sender is queued more than once')
        qs |= {e.recv for e in puts}
    if not ctx.check(len(qs) == 1, 'C23.queue', 'queue', handle.key, 'records are put on %d queues' % len(qs)):
        return
    q = qs.pop()
    qname = q.args[1] if q.op == 'attr' else None
    # --- the queue loses nothing
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write', 'new'), max_states=2000, opaque=lambda f: f is connect, raising=False))
    addr = sym('address')
    obj = ip.self_obj(ci.key)
    for p in ip.run(init, args={init.node.args.args[1].arg: addr}, self_val=obj):
        if p.kind != 'return':
            continue
        evs = list(flat(p.trace))
        made = [e for e in evs if e.kind == 'write' and e.name == qname]
        for e in made:
            v = e.value
            ok = v is not None and v.op == 'call' and v.args[0].split('.')[-1] in ('Queue', 'SimpleQueue') and v.args[0].startswith('queue.') and not [a for a in list(v.args[2]) + [x[1] for x in v.args[3]] if not (is_const(a) and cval(a) == 0)]
            ctx.check(ok, 'C23.queue', 'kind of queue', e.where, 'records are queued on %s' % short(v))
        ctx.check(bool(made), 'C23.queue', 'made', init.key, 'the queue is not created with the sender')
        con = [e for e in evs if e.kind == 'call' and e.name == '@LogSender.connect' and addr in e.args]
        b = p.facts.get(mk('isnone', addr))
        ctx.check(bool(con) or b is True, 'C23.address', 'address given', init.key, 'the address given to the sender is not connected to')
        start = [i for i, e in enumerate(evs) if e.name == '.start' and e.kind == 'call']
        ctx.check(bool(start), 'C23.queue', 'thread', init.key, 'the thread that sends is not started')
    kept_queue(ctx, ci, run, qname)
    # --- connect
    item_kinds = set()
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write'), max_states=2000, opaque=lambda f: False, raising=False))
    for p in ip.run(connect, args={connect.node.args.args[1].arg: addr}):
        evs = list(flat(p.trace))
        puts = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.name == '.put' and e.recv is q]
        if not ctx.check(len(puts) == 1, 'C23.address', 'connect', connect.key, 'connect does not queue the new connection for the thread that sends'):
            continue
        i, e = puts[0]
        con = [x for x in evs[:i] if x.kind == 'call' and x.name == '.connect' and addr in x.args and x.recv is e.args[0]]
        ctx.check(bool(con), 'C23.address', 'connected', e.where, 'connect queues %s, which is not connected to the address it was given' % short(e.args[0], 80))
        if con:
            ctx.check(any(x is ext('zmq.PUSH') for x in subterms(e.args[0])), 'C23.address', 'kind of socket', con[0].where, 'the sender uses %s, not a PUSH socket' % short(e.args[0], 80))
        for x in evs:
            bad = lossy(x, e.args[0])
            ctx.check(bad is None, 'C23.address', 'option', x.where, 'the socket of a sender loses records: %s' % bad)
        for x in evs:
            ctx.check(x.kind != 'write' or x.recv is not ip.self_obj(ci.key) or x.name == 'x', 'C23.address', 'write %s' % x.name, x.where, 'connect changes the sender in the calling thread') if x.kind == 'write' and x.name == 'socket' else None
    # --- the thread that sends
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write', 'setitem', 'del', 'caught', 'loop', 'break'), raises=raises, opaque=lambda f: False, want_loops=True, merge=False, max_states=4000, split=lambda c: any(is_const(x) and cval(x) in ('exc_info', 'exc_text') or x.op == 'attr' and x.args[1] in ('exc_info', 'exc_text') for x in tops(c)),
                       raise_events=('json.dumps', '.send', '.getMessage', 'repr', 'str', 'ascii', '.encode')))
    keys = set()
    for p in ip.run(run):
        if not ctx.check(p.kind == 'return', 'C23.sender', 'raise %s' % exc_where(p.val)[0] if p.kind == 'raise' else 'end', exc_where(p.val)[1] if p.kind == 'raise' else run.key,
                         'the thread of a log sender ends with %s' % short(p.val, 60)):
            continue
        if all(e.kind != 'loop' for e in p.trace):
            ctx.fail('C23.sender', 'loop', run.key, 'the thread of a log sender does not serve more than one record')
        last = [e.value for e in p.trace if e.kind == 'call' and e.name == '.get' and e.recv is not None and same_field(e.recv, qname)]
        ctx.check(bool(last) and p.facts.get(mk('isnone', last[-1])) is True, 'C23.sender', 'end', run.key, 'the thread of a log sender ends for something else than the item that closing it queues')
        for l in p.trace:
            if l.kind == 'loop':
                for it in l.extra:
                    iteration(ctx, it, qname, run, keys)
        for e in flat(p.trace):
            if e.kind == 'call' and e.name in ('.close', '.setsockopt') and (e.args or e.kwargs):
                z = list(e.args) + [v for _, v in e.kwargs]
                ctx.check(const(0) not in z, 'C23.address', 'closing', e.where, 'the records pending on a connection are thrown away when it is replaced')
    ctx.require('C23.sender', 2)
    ctx.require('C23.record', 8)
    header(ctx, keys)


def lossy(x, sock):
    """A socket option that lets records be dropped."""
    if x.recv is not sock:
        return None
    opt, v = None, None
    if x.kind == 'write':
        opt, v = x.name, x.value
    elif x.kind == 'call' and x.name in ('.setsockopt', '.set', '.setsockopt_string') and len(x.args) > 1:
        opt, v = show(x.args[0]).split('.')[-1], x.args[1]
    elif x.kind == 'call' and x.name == 'setattr' and len(x.args) > 2:
        opt, v = show(x.args[1]), x.args[2]
    if opt is None:
        return None
    opt = opt.lower().strip("'\"")
    c = cval(v) if is_const(v) else None
    if opt == 'linger' and c == 0:
        return 'what is pending when it is closed is thrown away'
    if opt == 'sndtimeo' and c is not None and c >= 0:
        return 'sending gives up after %s ms' % c
    if opt == 'conflate' and c:
        return 'only the last message is kept'
    return None


def kept_queue(ctx, ci, run, qname):
    """Only the thread that sends takes records from the queue, and the queue stays the same."""
    todo, inside = [run], set()
    while todo:
        f = todo.pop()
        if f.key in inside:
            continue
        inside.add(f.key)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                g = ctx.p.find_method(ci.key, x.attr)
                if g is not None:
                    todo.append(g)
    for f in ctx.p.funcs.values():
        if f.cls != ci.key and getattr(f.cls, 'key', None) != ci.key or f.key in inside or f.name == '__init__' or isinstance(f.node, ast.Lambda):
            continue
        ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write'), opaque=lambda g: g.key != f.key, raising=False, max_states=1000))
        for p in ip.run(f):
            for e in flat(p.trace):
                if e.kind == 'call' and e.recv is not None and same_field(e.recv, qname):
                    ctx.check(e.name not in ('.get', '.get_nowait', '.clear', '.pop', '.popleft'), 'C23.queue', '%s in %s' % (e.name, f.name), e.where, 'records are taken from the queue by something else than the thread that sends them')
                if e.kind == 'write' and e.name == qname:
                    ctx.fail('C23.queue', 'write in %s' % f.name, e.where, 'the queue of records is replaced while the thread that sends them waits on it')


def same_field(t, name):
    return (t.op == 'attr' and t.args[1] == name) or (t.op == 'loopvar' and any(hasattr(x, 'op') and x.op == 'attr' and x.args[1] == name for x in subterms(t))) or show(t).rstrip(')').endswith('.%s' % name)


def iteration(ctx, it, qname, run, keys):
    evs = list(flat(it.trace))
    got = [e for e in evs if e.kind == 'call' and e.name in ('.get', '.get_nowait') and same_field(e.recv, qname)]
    if not got:
        return
    item = got[-1].value
    if it.facts.get(mk('isnone', item)) is True:
        return
    sock = [e for e in evs if e.kind == 'write' and e.value is item]
    isinst = [b for c, b in it.facts.items() if c.op == 'isinst' and c.args[0] is item and isinstance(b, bool) and 'Socket' in show(c)] or \
        [not b for c, b in it.facts.items() if c.op == 'isinst' and c.args[0] is item and isinstance(b, bool) and 'LogRecord' in show(c)]
    if isinst == [True]:
        ctx.check(bool(sock), 'C23.address', 'new connection', run.key, 'a connection that is queued is not used for the records after it')
        return
    ctx.check(not sock, 'C23.address', 'record as connection', run.key, 'a record is taken for a connection')
    sends = [e for e in evs if e.kind == 'call' and e.name == '.send']
    unconnected = any(c.op == 'isnone' and b is True and 'socket' in show(c) for c, b in it.facts.items()) or any(c.op == 'truth' and b is False and 'socket' in show(c.args[0]) and 'socket(' not in show(c.args[0]) for c, b in it.facts.items()) \
        or any(b is False and c.op not in ('isnone', 'truth', 'isinst') and show(c).endswith('.socket)') for c, b in it.facts.items())
    formatting = [e for e in evs if e.kind == 'raises' and e.name == '.getMessage']
    caught = [e for e in evs if e.kind == 'caught']
    failed = [e for e in evs if e.kind == 'raises' and e.name in ('json.dumps', '.send')]
    if not sends:
        if not unconnected:
            causes = [x for x in evs if x.kind in ('raises', 'caught')]
            made = [x for x in causes[-2:-1] if x.kind == 'raises' and x.name in ('repr', 'str', 'ascii', '.encode')]
            ok = bool(caught) and not (formatting and len(caught) == 1 and not failed) and not made
            ctx.check(ok, 'C23.sender', 'lost', run.key, 'a record is not sent' + (' because its message cannot be formatted' if formatting else ''))
        return
    if not ctx.check(len(sends) == 1, 'C23.record', 'sent twice', sends[0].where, 'a record is sent more than once'):
        return
    e = sends[0]
    late = [a for a in list(e.args[1:]) + [v for k, v in e.kwargs if k == 'flags'] if any(hasattr(x, 'op') and x.op == 'ext' and x.args[0].endswith(('NOBLOCK', 'DONTWAIT')) for x in subterms(a))]
    ctx.check(not late, 'C23.sender', 'waiting', e.where, 'a record is given up when the socket cannot take it at once')
    dumps = [x for x in subterms(e.args[0]) if hasattr(x, 'op') and x.op == 'call' and x.args[0] == 'json.dumps']
    if not ctx.check(len(dumps) >= 1, 'C23.record', 'serialised', e.where, '%s is sent, which is not a serialised record' % short(e.args[0], 80)):
        return
    d = dumps[0].args[2][0]
    d, made = each_value(d)
    where = e.where
    opts = dict(dumps[0].args[3])
    ctx.check(opts.get('allow_nan', TRUE) is TRUE and opts.get('sort_keys', FALSE) is FALSE, 'C23.record', 'numbers', where, 'a record is serialised with %s, which may fail for the values it holds' %
              ', '.join(k for k in ('allow_nan', 'sort_keys') if k in opts))
    for x in evs:
        if x.kind == 'del' or x.name == '.pop' and x.kind == 'call':
            k = cval(x.args[0]) if x.args and is_const(x.args[0]) else None
            if k in KEPT + ('msg', 'exc_text', 'thread', 'threadName') and x.recv is not None and (x.recv.op == 'alloc' or mentions(x.recv, item)):
                v = vals_of(d, k)
                ctx.check(k == 'msg' and all(y is not None and y.op not in ('item', 'get') for y in v), 'C23.record', '%s' % k, x.where, 'the %s of a record is taken out before it is sent' % k)
    for k in KEPT:
        v = vals_of(d, k)
        ctx.check(all(x is not None and is_item(x, item, k) for x in v), 'C23.record', k, where, 'the %s of a record is sent as %s' % (k, [short(x, 60) for x in v]))
    # message
    v = flatset(vals_of(d, 'msg'))
    for x in v:
        full = x is not None and x.op == 'call' and x.args[0] == '.getMessage' and x.args[1] is item
        ctx.check(full or bool(formatting), 'C23.record', 'msg', where, 'the message of a record is sent as %s' % short(x, 80))
        if formatting:
            ctx.check(x is not None and reads_item(x, item, 'msg'), 'C23.record', 'msg unformatted', where, 'the message of a record that cannot be formatted is sent as %s' % short(x, 80))
    # objects that the receiver must not get
    for k in ('args', 'exc_info'):
        gone = [x for x in evs if x.recv is not None and x.args and x.args[0] is const(k) and (x.name == '.pop' or x.kind == 'del' or x.kind == 'setitem')]
        v = vals_of(d, k)
        ok = any(x.name == '.pop' or x.kind == 'del' or (x.value is not None and (x.value is NONE or is_const(x.value) and not cval(x.value) or x.value.op in ('tuple', 'list') and not x.value.args)) for x in gone) or v == [None] or v == [NONE]
        ctx.check(ok, 'C23.record', k, where, 'the %s of a record is sent' % k)
    # exception text
    v = flatset(vals_of(d, 'exc_text'))
    for x in v:
        if x is not None and x.op == 'call' and 'format' in x.args[0].lower():
            ctx.check(reads_item(x, item, 'exc_info'), 'C23.record', 'exc_text', where, 'the exception text is made of %s' % short(x, 80))
            continue
        none = any(b is False and is_truth_of(c, item, 'exc_info') for c, b in it.facts.items()) or any(c.op == 'isnone' and b is True and is_item(c.args[0], item, 'exc_info') for c, b in it.facts.items())
        have = any(b is True and is_truth_of(c, item, 'exc_text') for c, b in it.facts.items()) or any(c.op == 'isnone' and b is False and is_item(c.args[0], item, 'exc_text') for c, b in it.facts.items())
        ctx.check(x is not None and is_item(x, item, 'exc_text') and (none or have), 'C23.record', 'exc_text', where, 'the exception of a record is sent as %s' % short(x, 80))
    # names
    for k in ('process_name', 'host_name'):
        v = flatset(vals_of(d, k))
        absent = [x for x in v if x is None or is_item(x, item, k)]
        present = [x for x in v if x not in absent]
        glob = lambda x: any(hasattr(y, 'op') and y.op in ('glob', 'global', 'attr', 'modvar') and str(y.args[-1]) == k or hasattr(y, 'op') and show(y).endswith('teleprox.log.remote.%s' % k) for y in subterms(x))
        for x in present:
            ctx.check(glob(x), 'C23.record', k, where, 'the %s is sent as %s' % (k, short(x, 60)))
            keys.add(k)
        if absent:
            ctx.check(any(c.op == 'isnone' and b is True and k in show(c) or c.op != 'isnone' and b is False and show(c).endswith(k) for c, b in it.facts.items()), 'C23.record', k + ' missing', where, 'a record is sent without its %s' % k)
    for x in flatset(vals_of(d, 'thread_name')):
        ctx.check(x is not None and (reads_item(x, item, 'thread') or reads_item(x, item, 'threadName')) and 'current_thread' not in show(x) and 'get_ident' not in show(x), 'C23.record', 'thread_name', where,
                  'the name of the thread is sent as %s' % short(x, 80))
        keys.add('thread_name')
    # nothing is serialised that was not tried
    default = dict(dumps[0].args[3]).get('default') if len(dumps[0].args) > 3 else None
    tried = False
    for l in deep(it.trace):
        for a in l.extra:
            bad = [x for x in flat(a.trace) if x.kind == 'raises' and x.name == 'json.dumps']
            good = [x for x in flat(a.trace) if x.kind == 'call' and x.name == 'json.dumps']
            if bad or good:
                tried = True
            if bad:
                put = [x for x in flat(a.trace) if x.kind == 'setitem' or x.kind == 'del' or x.name in ('.pop', '.append', '.update')]
                ctx.check(bool(put) or l.name == 'comp' and made is not None and bool(made), 'C23.record', 'unserialisable', where, 'an attribute that cannot be serialised is left in the record')
                for x in put:
                    if x.kind == 'setitem' and x.value is not None:
                        ok = x.value.op != 'item' and (x.value.op == 'fstr' or x.value.op == 'call' or is_const(x.value) or x.value.op in ('str', 'repr', 'fmt'))
                        ctx.check(ok, 'C23.record', 'replacement', x.where, 'an attribute that cannot be serialised is replaced by %s' % short(x.value, 60))
    if not tried and default is None:
        tried = any('json.dumps' in show(v) for k, v in d.args if hasattr(v, 'op')) if d.op == 'dict' else False
    ctx.check(tried or default is not None, 'C23.record', 'values', where, 'a record is serialised without making sure that all its attributes can be')


def each_value(d):
    """`{key: f(value) for key, value in D.items()}`: D, and what f makes of values (other than the value itself)"""
    if d.op == 'dict' and len(d.args) == 1 and getattr(d.args[0][1], 'op', None) == 'compdict':
        src, marks, fil = d.args[0][1].args
        if src.op == 'items' and fil is False and marks and all(k.op == 'key' for k, v in marks):
            plain = [v for k, v in marks if v.op == 'item' and v.args[1] is k]
            other = [v for k, v in marks if not (v.op == 'item' and v.args[1] is k)]
            if plain and all(v.op in ('call', 'fstr', 'fmt') and not is_const(v) for v in other):
                return src.args[0], other
    return d, None


def deep(trace):
    for e in trace:
        if e.kind == 'loop':
            yield e
            for it in e.extra:
                for x in deep(it.trace):
                    yield x


def is_truth_of(c, item, name):
    return is_item(c, item, name) or (c.op == 'truth' and is_item(c.args[0], item, name))


def header(ctx, keys):
    """The display reads the fields that the sender writes."""
    ci = cls(ctx, 'RPCLogHandler')
    fmt = method(ctx, ci, 'format')
    rec = sym('record')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('getattr', 'read', 'call'), opaque=lambda f: False, raising=False, max_states=2000, merge=False))
    want = {'host_name', 'process_name', 'thread_name'}
    n = 0
    for p in ip.run(fmt, args={fmt.node.args.args[1].arg: rec}):
        if p.kind != 'return':
            continue
        n += 1
        terms = list(subterms(p.val))
        for e in flat(p.trace):
            for y in list(e.args) + [e.value]:
                if y is not None:
                    terms.extend(subterms(y))
        used = {getattr(t.args[1], 'args', [t.args[1]])[0] for t in terms if hasattr(t, 'op') and t.op in ('getattr', 'attr') and t.args[0] is rec}
        for k in sorted(want):
            ctx.check(k in used, 'C23.names', k, fmt.key, 'the %s that a sender adds to a record is not displayed' % k)
    ctx.check(want <= keys, 'C23.names', 'sent', fmt.key, 'no %s is sent with a record' % ', '.join(sorted(want - keys)))
    if not n:
        raise AnalysisBroken('RPCLogHandler.format never returns')


def server(ctx):
    ci = cls(ctx, 'LogServer')
    run = method(ctx, ci, 'run')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'caught', 'loop', 'break', 'write', 'setitem'), raises=raises, opaque=lambda f: False, want_loops=True, merge=False, max_states=3000))
    n = 0
    for p in ip.run(run):
        if not ctx.check(p.kind == 'return', 'C23.server', 'raise %s' % exc_where(p.val)[0] if p.kind == 'raise' else 'end', exc_where(p.val)[1] if p.kind == 'raise' else run.key,
                         'the thread of a log server ends with %s' % short(p.val, 60)):
            continue
        loops = [e for e in p.trace if e.kind == 'loop']
        ctx.check(bool(loops), 'C23.server', 'loop', run.key, 'the thread of a log server does not serve more than one record')
        stopped = any(b is False and c.op != 'isnone' and 'running' in show(c) for c, b in p.facts.items()) or any(b is True and ('is_set' in show(c)) for c, b in p.facts.items())
        ctx.check(stopped, 'C23.server', 'end', run.key, 'the thread of a log server ends although it was not stopped')
        for l in loops:
            for it in l.extra:
                evs = list(flat(it.trace))
                recvs = [e for e in evs if e.kind == 'call' and e.name == '.recv']
                if not recvs:
                    ctx.check(not any(e.name == '.handle' for e in evs if e.kind == 'call'), 'C23.server', 'handled', run.key, 'a record is handled that was not received')
                    continue
                n += 1
                msg = recvs[-1].value
                hs = [e for e in evs if e.kind == 'call' and e.name in ('.handle', '.callHandlers')]
                made = [e.value for e in evs if e.kind == 'call' and e.name.endswith('makeLogRecord')]
                if any(e.kind == 'caught' for e in evs):
                    continue
                filt = [b for c, b in it.facts.items() if 'filter_by_level' in show(c) and c.op != 'isnone' and isinstance(b, bool)]
                below = None
                for c, b in it.facts.items():
                    if c.op == 'lt' and isinstance(b, bool):
                        x = level_cmp(c, b)
                        if x is not None:
                            below = x
                    elif c.op == 'call' and c.args[0] == '.isEnabledFor' and isinstance(b, bool):
                        below = not b
                if not hs:
                    ctx.check(filt == [True] and below is True, 'C23.server', 'dropped', recvs[-1].where, 'a record is dropped although %s' % ('filtering is off' if filt != [True] else 'its level is not below the logger\'s'))
                    continue
                ctx.check(len(hs) == 1, 'C23.server', 'handled twice', hs[0].where, 'a record is handled more than once')
                a = hs[0].args[0] if hs[0].args else None
                for e in evs:
                    if e.kind == 'write' and e.recv is a or e.kind == 'setitem' and e.recv is not None and mentions(e.recv, msg):
                        k = e.name if e.kind == 'write' else cval(e.args[0]) if e.args and is_const(e.args[0]) else None
                        ctx.check(k not in KEPT + ('msg', 'exc_text', 'host_name', 'process_name', 'thread_name'), 'C23.server', 'changed %s' % k, e.where, 'the %s of a received record is changed' % k)
                ok = a is not None and a.op == 'call' and a.args[0].endswith('makeLogRecord') and any(hasattr(x, 'op') and x.op == 'call' and x.args[0] == 'json.loads' and mentions(x, msg) for x in subterms(a))
                ctx.check(ok, 'C23.server', 'record', hs[0].where, '%s is handled, not the record that was received' % short(a, 80))
                ctx.check('logger' in show(hs[0].recv), 'C23.server', 'logger', hs[0].where, 'the record is handled by %s' % short(hs[0].recv, 60))
                ctx.check(not (filt == [True] or not filt) or below is False, 'C23.server', 'filter', hs[0].where, 'a record is handled without comparing its level with the logger\'s although filtering is on') if filt != [False] else None
    if n < 1:
        raise AnalysisBroken('LogServer.run receives nothing')


def level_cmp(c, b):
    """True: the record's level is known to be below the logger's; False: known not to be."""
    its, k = lt_parts(c)
    if len(its) != 2:
        return None
    co = {}
    for t, x in its:
        s = show(t)
        if t.op == 'attr' and t.args[1] == 'levelno' or s.endswith("['levelno']"):
            co['r'] = x
        elif 'getEffectiveLevel' in s:
            co['l'] = x
    if set(co) != {'r', 'l'}:
        return None
    if co['r'] == 1 and co['l'] == -1 and k == 0:      # r < l
        return b
    if co['r'] == -1 and co['l'] == 1:
        if k == 0:                                      # l < r
            return None if b is False else False
        if k == -1:                                     # l <= r
            return not b
    return None


def globals_(ctx):
    setter = [f for f in ctx.p.funcs.values() if f.name == 'set_logger_address' and f.cls is None]
    getter = [f for f in ctx.p.funcs.values() if f.name == 'get_logger_address' and f.cls is None]
    if not setter or not getter:
        raise AnalysisBroken('set_logger_address or get_logger_address not found')
    setter, getter = setter[0], getter[0]
    addr = sym('addr')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'new', 'write', 'setglobal'), opaque=lambda f: f.name == 'connect', opaque_class=lambda k: k.split(':')[-1] == 'LogSender', raising=False, merge=False))
    n = 0
    for p in ip.run(setter, args={setter.node.args.args[0].arg: addr}):
        if p.kind != 'return':
            continue
        n += 1
        con = [e for e in flat(p.trace) if addr in e.args and e.name in ('.connect', '@LogSender.connect')]
        new = [e for e in flat(p.trace) if e.name == 'new LogSender' and (addr in e.args or addr in dict(e.kwargs).values())]
        ctx.check(bool(con) or bool(new), 'C23.address', 'set_logger_address', setter.key, 'set_logger_address does not connect the sender of this process to the address')
        for e in new:
            lg = dict(e.kwargs).get('logger', e.args[1] if len(e.args) > 1 else None)
            ctx.check(lg is const('') or lg is not None and 'getLogger' in show(lg), 'C23.address', 'root logger', e.where, 'the sender is attached to logger %s, not to the root logger' % short(lg))
    # what children are told
    ip = ctx.interp(RP(raising=False, merge=False))
    for p in ip.run(getter):
        if p.kind == 'return':
            v = p.val
            ok = 'server_addr' in show(v) or show(v).endswith('.address')
            ctx.check(ok, 'C23.address', 'get_logger_address', getter.key, 'get_logger_address returns %s' % short(v))
            if show(v).endswith('server_addr') and v.op != 'phi':
                ctx.check(any(c.op == 'isnone' and b is True and 'server' in show(c) and 'server_addr' not in show(c) or c.op != 'isnone' and b is False and show(c).endswith('.server') for c, b in p.facts.items()), 'C23.address', 'own server', getter.key,
                          'get_logger_address ignores the log server of this process')
    if n < 1:
        raise AnalysisBroken('set_logger_address has %d paths' % n)


def check(ctx):
    sender(ctx)
    server(ctx)
    globals_(ctx)
