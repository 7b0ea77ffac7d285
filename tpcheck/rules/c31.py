import ast
from .base import *

EXPLANATION = """
Every operation of the client is interpreted with its optional arguments given and left out, up to the request it sends; the server's request processing is then
interpreted on exactly that action and those options.  It must find what it looks for in the options and do the operation: call the object with the arguments, return
the object, remove the reference, store and find under the name, return the module of the (dotted) name.  The frames a request is sent in are fed to the server's reader: the action, the return type
and the options must arrive in their places.  An action that no client sends must end in an exception.
"""
ASSUMPTIONS = ['what a serializer loads is what was dumped (C06)', 'a raised exception is answered with an error (C01)', 'importing a.b.c sets the attributes b of a and c of b']
OPS = ('call_obj', 'get_obj', 'transfer', '_import', 'delete', '__getitem__', '__setitem__', 'ping', 'close_server')
SEND = '@RPCClient.send'


def params(f):
    """name -> default node or None"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict.fromkeys(x.arg for x in pos)
    for x, n in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        d[x.arg] = n
    for x, n in zip(a.kwonlyargs, a.kw_defaults):
        d[x.arg] = n
    return d


class C:
    def __init__(self, ctx):
        self.ctx = ctx
        self.client = cls(ctx, 'RPCClient')
        self.server = cls(ctx, 'RPCServer')
        self.send = ctx.p.find_method(self.client.key, 'send')
        if self.send is None:
            raise AnalysisBroken('RPCClient.send is not there')
        self.serve = ctx.p.find_method(self.server.key, 'process_action')
        if self.serve is None:
            raise AnalysisBroken('RPCServer.process_action is not there')
        self.names = [n for n in params(self.send)][1:]

    def request(self, e):
        """Arguments of send by name; '**' for those passed on."""
        d = dict(zip(self.names, e.args))
        for k, v in e.kwargs or ():
            d[k] = v
            if k == '**':
                for kk, vv in updated(v):
                    d[kk] = vv
        return d

    def variants(self, f):
        ps = [(n, d) for n, d in params(f).items()][1:]
        out = [{}]
        for n, d in ps:
            if isinstance(d, ast.Constant):
                out = [dict(o, **{n: v}) for o in out for v in ((const(d.value), sym(n)) if n not in ('sync', 'timeout') else (sym(n),))]
            else:
                out = [dict(o, **{n: sym(n)}) for o in out]
        return out

    def requests(self, name):
        f = self.ctx.p.find_method(self.client.key, name)
        if f is None:
            raise AnalysisBroken('RPCClient.%s is not there' % name)
        ip = self.ctx.interp(RP(record=lambda e: e.kind == 'call' and e.name == SEND, opaque=lambda g: g is self.send or g.name == 'disconnected', raising=False, merge=False))
        me = ip.self_obj(self.client.key)
        out = []
        for v in self.variants(f):
            for p in ip.run(f, self_val=me, args=v):
                if p.kind != 'return':
                    continue
                es = calls(p.trace, SEND)
                if not es:
                    continue
                if not self.ctx.check(len(es) == 1, 'C31.sent', 'once', f.key, '%s sends %d requests' % (name, len(es))):
                    continue
                out.append((f, v, p, es[0], self.request(es[0]), ip))
        return f, out

    def process(self, action, opts, st=None, cls_=None, args=None):
        ip = self.ctx.interp(RP(record=lambda e: e.kind in ('call', 'getitem', 'setitem', 'del', 'write', 'raise', 'contains'), opaque=lambda g: not (g.cls is not None and g.cls.name.endswith('RPCServer') or g.module.name == 'teleprox.server'),
                                raises=lambda e, st: ('Exception*',) if e.kind == 'call' and e.name == '()' and e.recv is sym('obj') else (), raise_events=('()',), merge=False, want_loops=True, max_states=2000))
        f = self.serve if cls_ is None else self.ctx.p.find_method(cls_.key, 'process_action')
        me = ip.self_obj((cls_ or self.server).key)
        a = [n for n in params(f)][1:]
        if len(a) < 4:
            raise AnalysisBroken('process_action takes %s' % ', '.join(a))
        d = dict(zip(a, (action, opts, sym('return_type'), sym('caller'))))
        return ip, me, ip.run(f, self_val=me, args=d, **({'st': st} if st is not None else {}))


def updated(v):
    """Constant keys set in a mapping built from the keyword arguments."""
    if v.op in ('upd', 'dict'):
        for x in v.args:
            if isinstance(x, tuple):
                for y in (x if x and isinstance(x[0], tuple) else (x,)):
                    if len(y) == 2 and hasattr(y[0], 'op') and is_const(y[0]) and isinstance(cval(y[0]), str):
                        yield cval(y[0]), y[1]


def options(d):
    o = d.get('opts', NONE)
    return o


def falsy(p, t):
    """Is t known to be empty (or None) on this path?"""
    if is_const(t):
        return not cval(t)
    if t.op in ('dict', 'tuple', 'list') and not t.args:
        return True
    for c, b in p.facts.items():
        if c is t and b is False or c.op == 'truth' and c.args[0] is t and b is False or c.op == 'isnone' and c.args[0] is t and b is True:
            return True
        if c.op == 'eq' and b is True and any(x.op == 'call' and x.args[0] == 'len' and x.args[2] and x.args[2][0] is t for x in c.args) and any(x is const(0) for x in c.args):
            return True
        if c.op == 'eq' and b is True and t in c.args and any(x.op in ('dict', 'tuple', 'list') and not x.args or x is const(()) for x in c.args):
            return True
        if b is False and c.op == 'call' and c.args[0] in ('len', 'bool') and c.args[2] and c.args[2][0] is t:
            return True
    return False


def module_of(t, evs):
    """The dotted name of the module that t is, given the imports made."""
    if t.op == 'getattr' and len(t.args) >= 2 and isinstance(t.args[1], str) or t.op == 'attr':
        m = module_of(t.args[0], evs)
        return m and '.' not in t.args[1] and m + '.' + t.args[1] or None
    if t.op == 'call':
        n, r, a = t.args[0], t.args[1], t.args[2]
        kw = dict(t.args[3] or ())
        if n == 'getattr' and len(a) >= 2 and is_const(a[1]):
            m = module_of(a[0], evs)
            return m and '.' not in cval(a[1]) and m + '.' + cval(a[1]) or None
        if n.endswith('import_module'):
            x = a[0] if a else kw.get('name')
            return cval(x) if x is not None and is_const(x) and len(a) == 1 else None
        if n.split('.')[-1] == '__import__':
            x = a[0] if a else kw.get('name')
            if x is None or not is_const(x):
                return None
            fl = kw.get('fromlist', a[3] if len(a) > 3 else None)
            if fl is None or fl.op in ('list', 'tuple') and not fl.args or is_const(fl) and not cval(fl):
                return cval(x).split('.')[0]
            return cval(x) if fl.op in ('list', 'tuple') and not any(is_star_(y) for y in fl.args) or is_const(fl) else None
    if t.op == 'item' and t.args[0] is ext('sys.modules') and is_const(t.args[1]):
        return cval(t.args[1]) if any(e.kind == 'call' and 'import' in e.name and e.args and e.args[0] is t.args[1] for e in evs) else None
    return None


def is_star_(x):
    return getattr(x, 'op', '') == 'star'


def failing(ctx, p, rule, what, where):
    """A path of the server that ends in an exception although the request is a proper one."""
    if p.kind == 'return':
        return False
    if p.val is not None and p.val.op == 'exc' and p.val.args[0] == 'AssertionError':
        return True         # an inconsistency the server finds in itself
    ctx.fail(rule, what, exc_where(p.val)[1] if p.val is not None and p.val.op == 'exc' else where, '%s ends in %s on the server' % (what, short(p.val, 60)))
    return True


def check(ctx):
    c = C(ctx)
    reqs = {}
    for op in OPS:
        f, rs = c.requests(op)
        if not rs:
            raise AnalysisBroken('RPCClient.%s sends no request' % op)
        reqs[op] = rs
        for f, v, p, e, d, ip in rs:
            if not ctx.check('action' in d and is_const(d['action']) and isinstance(cval(d['action']), str), 'C31.sent', op, e.where, '%s sends the action %s' % (op, short(d.get('action'), 60))):
                continue
            if op not in ('__setitem__',):
                ctx.check(p.val is e.value or ip.freeze(p.st, p.val) is e.value, 'C31.result', op, e.where, '%s returns %s, not what the server returned' % (op, short(p.val, 60)))
            if f.node.args.kwarg is not None:
                ctx.check('**' in d, 'C31.sent', op + ' options', e.where, '%s does not pass on the keyword arguments of the caller' % op)
            for k in ('sync', 'timeout'):
                if k in params(f):
                    ctx.check(d.get(k) is sym(k), 'C31.sent', '%s %s' % (op, k), e.where, '%s does not pass on its argument %s' % (op, k))
            if op in ('__getitem__', '__setitem__'):
                ctx.check(d.get('sync', const('sync')) is const('sync'), 'C31.sent', op + ' waits', e.where, '%s does not wait for the server' % op)
            if op == 'transfer':
                ctx.check(d.get('return_type') is const('proxy'), 'C31.sent', 'transfer proxy', e.where, 'transfer asks for %s, not for a proxy' % short(d.get('return_type'), 40))
            else:
                ctx.check(d.get('return_type', const('auto')) is const('auto'), 'C31.sent', op + ' return type', e.where, '%s always asks for %s' % (op, short(d.get('return_type'), 40)))
    done = set()
    for op, rs in reqs.items():
        for f, v, p, e, d, ip in rs:
            a, o = d.get('action'), options(d)
            if a is None or not is_const(a) or (op, a, o) in done:
                continue
            done.add((op, a, o))
            serve(ctx, c, op, cval(a), o, p, e)
    unknown(ctx, c)
    wire(ctx, c)
    ctx.require('C31.serve', 20)
    ctx.require('C31.sent', 9)
    ctx.require('C31.wire', 4)


def serve(ctx, c, op, action, o, cp, ce):
    names = ['']
    if op == '_import':
        names = ['alpha', 'alpha.beta', 'alpha.beta.gamma', 'alpha.beta.alpha', 'alpha.beta.gamma.delta.epsilon']
    for name in names:
        opts = o
        if name:
            opts = replace(o, sym('module'), const(name))
        ip, me, paths = c.process(const(action), opts)
        what = 'the request of %s' % op
        n = 0
        for p in paths:
            evs = list(flat(p.trace))
            if any(e.kind == 'raises' and e.name == '()' for e in evs):
                ctx.check(p.kind == 'raise', 'C31.serve', 'call fails', c.serve.key, 'the object raises an exception, and the request succeeds')
                continue
            if failing(ctx, p, 'C31.serve', what, ce.where):
                continue
            n += 1
            v = ip.freeze(p.st, p.val)
            if op == 'call_obj':
                call(ctx, c, p, evs, v, opts, cp)
            elif op in ('get_obj', 'transfer'):
                ctx.check(v is sym('obj'), 'C31.serve', op, c.serve.key, '%s gives %s, not the object' % (op, short(v, 60)))
            elif op == '_import':
                got = module_of(v, evs)
                ctx.check(got == name, 'C31.serve', 'import', c.serve.key, 'the request to import %s gives %s' % (name, got or short(v, 80)))
            elif op == 'delete':
                oid, rid = mk('attr', sym('obj'), '_obj_id'), mk('attr', sym('obj'), '_ref_id')
                hit = [e for e in evs if e.kind in ('call', 'del', 'setitem') and (any(x is rid for x in e.args) and e.recv is not None and mentions(e.recv, oid))]
                hit = [e for e in hit if e.kind == 'del' or e.name in ('.remove', '.discard', '.pop', '.difference_update')]
                ctx.check(len(hit) == 1, 'C31.serve', 'delete', c.serve.key, 'the request to delete a reference removes it %d times' % len(hit))
            elif op == 'ping':
                ctx.check(v is const('pong'), 'C31.serve', 'ping', c.serve.key, 'a ping is answered with %s' % short(v, 60))
            elif op == 'close_server':
                ctx.check(p.st.heap.get((me, 'a', '_closed')) is TRUE, 'C31.serve', 'close', c.serve.key, 'the request to close does not close the server')
        if not ctx.check(n > 0, 'C31.serve', op, c.serve.key, 'the server does not implement %r, which %s sends' % (action, op)):
            return
    if op == '__setitem__':
        publish(ctx, c, action, o)


def publish(ctx, c, action, o):
    f, rs = c.requests('__getitem__')
    get = rs[0][4]
    x, y = const(' Ab '), const('ab')
    ask = lambda n: replace(options(get), sym('name'), n)
    one, two = sym('obj#1'), sym('obj#2')
    tell = lambda n, v: replace(replace(o, sym('name'), n), sym('obj'), v)
    local = ctx.p.find_method(c.server.key, '__setitem__')
    k = 0
    for how in ('remote', 'local'):
        if how == 'local' and local is None:
            continue
        if how == 'remote':
            ip, me, ps = c.process(const(action), tell(x, one))
        else:
            ip, me, _ = c.process(const(action), tell(x, one))
            names = [n for n in params(local)][1:]
            ps = ip.run(local, self_val=me, args=dict(zip(names, (x, one))))
        for p in ps:
            if p.kind != 'return':
                continue
            st = clean(p.st)
            for n, want in ((x, one), (y, None)):
                ip2, _, qs = c.process(get['action'], ask(n), st=clean(st))
                for q in qs:
                    if q.kind != 'return':
                        ctx.check(want is None, 'C31.publish', 'found', c.serve.key, 'an object that was published (%s) is not found under its name' % how)
                        continue
                    v = ip2.freeze(q.st, q.val)
                    k += 1
                    if want is None:
                        ctx.check(v is not NONE, 'C31.publish', 'missing', c.serve.key, 'a name that nothing was published by is answered with None, not with an error')
                        ctx.check(v is not one, 'C31.publish', 'other', c.serve.key, 'an object is found under a name that it was not published by')
                    else:
                        ctx.check(v is want, 'C31.publish', 'found', c.serve.key, 'under the name of a published object (%s), %s is found' % (how, short(v, 60)))
            ip3, _, ss = c.process(const(action), tell(x, two), st=clean(st))
            for s in ss:
                if s.kind != 'return':
                    ctx.fail('C31.publish', 'again', c.serve.key, 'a name cannot be published again')
                    continue
                ip4, _, qs = c.process(get['action'], ask(x), st=clean(s.st))
                for q in qs:
                    ctx.check(q.kind == 'return' and ip4.freeze(q.st, q.val) is two, 'C31.publish', 'newest', c.serve.key, 'after a name was published again, the old object is found')
    if not k:
        raise AnalysisBroken('nothing is found by name')


def clean(st):
    s = st.fork()
    s.trace = ()
    return s


def call(ctx, c, p, evs, v, opts, cp):
    fn = sym('obj')
    cs = [e for e in evs if e.kind == 'call' and e.name == '()' and e.recv is fn]
    if not ctx.check(len(cs) == 1, 'C31.serve', 'call', c.serve.key, 'the object is called %d times for one request' % len(cs)):
        return
    e = cs[0]
    ctx.check(v is e.value, 'C31.serve', 'call result', e.where, 'a call gives %s, not what the object returned' % short(v, 60))
    A, K = sym('args'), sym('kwargs')
    given_a = mentions(opts, A)
    given_k = mentions(opts, K)
    pos = tuple(e.args)
    kws = [(k, x) for k, x in (e.kwargs or ())]
    if given_a:
        ctx.check(pos == (mk('star', A),) or not pos and (falsy(p, A) or falsy(cp, A)), 'C31.serve', 'call arguments', e.where, 'the object is called with (%s), not with the arguments of the request' % ', '.join(short(x, 40) for x in pos))
    else:
        ctx.check(not pos, 'C31.serve', 'call arguments', e.where, 'the object is called with arguments that nobody gave')
    if given_k:
        ok = len(kws) == 1 and kws[0][0] == '**' and kws[0][1] is K or not kws and (falsy(p, K) or falsy(cp, K))
        ctx.check(ok, 'C31.serve', 'call keywords', e.where, 'the object is called without the keyword arguments of the request')
    else:
        ctx.check(not kws, 'C31.serve', 'call keywords', e.where, 'the object is called with keyword arguments that nobody gave')


def replace(t, a, b):
    if t is a:
        return b
    if not hasattr(t, 'op'):
        return tuple(replace(x, a, b) for x in t) if isinstance(t, tuple) else t
    if not t.args or not mentions(t, a):
        return t
    return mk(t.op, *[replace(x, a, b) for x in t.args])


def unknown(ctx, c):
    for opts in (NONE, sym('opts')):
        ip, me, paths = c.process(const('no such action'), opts)
        for p in paths:
            ctx.check(p.kind == 'raise', 'C31.unknown', 'constant', c.serve.key, 'an unknown action gives %s instead of an error' % short(p.val, 60))
    act = sym('action')
    ip, me, paths = c.process(act, sym('opts'))
    n = 0
    for p in paths:
        known = any(b is True and (k.op == 'eq' and act in k.args and any(is_const(x) for x in k.args) or k.op == 'in' and k.args[0] is act or k.op == 'call' and mentions(k, act))
                    or b is False and k.op == 'isnone' and mentions(k, act) for k, b in p.facts.items())
        if not known:
            n += 1
            ctx.check(p.kind == 'raise', 'C31.unknown', 'other', c.serve.key, 'an action that is none of the known ones gives %s instead of an error' % short(p.val, 60))
    ctx.require('C31.unknown', 1)


def wire(ctx, c):
    """The frames of a request as the server reads them."""
    frames = {}
    A, R = sym('action'), sym('return_type')
    for sync in ('sync', 'off'):
        for o in (NONE, sym('opts')):
            ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and e.name == '.send_multipart', opaque=lambda f: f.cls is None or f.cls.name != 'RPCClient', raising=False, merge=False))
            me = ip.self_obj(c.client.key)
            for p in ip.run(c.send, self_val=me, args={'sync': const(sync), 'opts': o, 'action': A, 'return_type': R}):
                es = calls(p.trace, '.send_multipart')
                if o is not NONE and falsy(p, o):
                    continue
                if p.kind == 'return' and ctx.check(len(es) == 1 and es[0].args[0].op in ('list', 'tuple'), 'C31.wire', 'sent', c.send.key, 'a request is sent in %d messages' % len(es)):
                    frames[(es[0].args[0], sync, o)] = es[0].where
    reader = ctx.p.find_method(c.server.key, '_read_and_process_one')
    if reader is None:
        raise AnalysisBroken('RPCServer._read_and_process_one is not there')
    PROC = '@RPCServer.process_action'
    for (m, sync, o), where in frames.items():
        sd = ctx.p
        msg = mk('list', sym('identity'), *m.args)
        rid = [t for t in subterms(m.args[0]) if getattr(t, 'op', '') == 'attr'][:1] if m.args else []
        rid = rid[0] if rid else const(-1)
        for rt in ('auto', 'proxy'):
            msg2 = replace(msg, mk('call', '.encode', R, (), (), None), const(rt.encode()))
            msg2 = replace(msg2, R, const(rt)) if mentions(msg2, R) else msg2
            ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and e.name in (PROC, '.send_multipart', '@RPCServer.get_proxy', '@RPCServer.auto_proxy'),
                               opaque=lambda f: not (f.cls is not None and f.cls.name == 'RPCServer') or f.name in ('process_action', 'get_proxy', 'auto_proxy'), raising=False, merge=False,
                               result=lambda e, st: msg2 if e.name == '.recv_multipart' else None))
            me = ip.self_obj(c.server.key)
            n = 0
            for p in ip.run(reader, self_val=me):
                es = calls(p.trace, PROC)
                # request numbers are not negative, and what is dumped is not empty
                if not es or any(b is True and (k.op == 'lt' and mentions(k, rid) or k.op == 'eq' and o is not NONE and const(b'') in k.args and any(mentions(x, o) for x in k.args)) for k, b in p.facts.items()):
                    continue
                n += 1
                e = es[0]
                a = list(e.args) + [v for k, v in (e.kwargs or ())]
                ctx.check(len(es) == 1 and a[0] is A, 'C31.wire', 'action', e.where, 'the action of a request arrives as %s' % short(a[0], 60))
                ctx.check(len(a) > 2 and a[2] is const(rt), 'C31.wire', 'return type', e.where, 'the return type of a request arrives as %s' % short(a[2] if len(a) > 2 else None, 60))
                ctx.check(len(a) > 3 and a[3] is sym('identity'), 'C31.wire', 'caller', e.where, 'the sender of a request arrives as %s' % short(a[3] if len(a) > 3 else None, 60))
                if o is NONE:
                    ctx.check(len(a) > 1 and (a[1] is NONE or a[1].op == 'dict' and not a[1].args), 'C31.wire', 'options', e.where, 'a request without options arrives with %s' % short(a[1] if len(a) > 1 else None, 60))
                else:
                    x = a[1] if len(a) > 1 else NONE
                    ok = x.op == 'call' and x.args[0].endswith('loads') and x.args[2] and x.args[2][0] in m.args and mentions(x.args[2][0], o)
                    ctx.check(ok, 'C31.wire', 'options', e.where, 'the options of a request arrive as %s' % short(x, 60))
                    ser = x.args[1] if ok else None
                    typ = [t for t in m.args if ok and ser is not None and t.op == 'call' and t.args[0] == '.encode' and t.args[1].op == 'attr' and mentions(ser, t.args[1])]
                    typ = [t for t in typ if any(x.op == 'call' and x.args[0].endswith('dumps') and x.args[1] is t.args[1].args[0] for x in subterms(a[1].args[2][0]) if hasattr(x, 'op'))]
                    ctx.check(not ok or bool(typ), 'C31.wire', 'serializer', e.where, 'the options of a request are not loaded with the serializer that the client names')
                out = [x for x in calls(p.trace, '.send_multipart')]
                ctx.check(bool(out) == (sync == 'sync'), 'C31.wire', 'answer', where, 'a request that %s an answer gets %d' % ('wants' if sync == 'sync' else 'wants no', len(out)))
                for s in out:
                    conv = calls(p.trace, '@RPCServer.get_proxy' if rt == 'proxy' else '@RPCServer.auto_proxy')
                    ctx.check(any(x.args and x.args[0] is e.value and any(mentions(y, x.value) for y in s.args) for x in conv), 'C31.wire', 'returned', s.where,
                              'a result asked for as %s is not sent as such' % rt)
            ctx.check(n > 0, 'C31.wire', 'read', where, 'a request that a client sends is not processed')
