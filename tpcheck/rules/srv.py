"""Server side request segments, shared by several rules.

A segment is what one analysed path does from the moment a message has been taken from the server's
socket to the moment the next one is taken (or the path ends)."""
from .base import *

SERVER_MODULES = ('teleprox.server', 'teleprox.qt_server', 'teleprox.qt_poll_thread')
OPS = ('()', '.loads', '.dumps', 'builtins.__import__')
PARSE = ('int', '.decode', 'unpack')


class Segment:
    def __init__(self, mode, parts, events, facts, kind, val, srv, st, fn):
        self.mode = mode
        self.parts = parts      # value of recv_multipart()
        self.events = events    # events after the message was received
        self.facts = facts
        self.kind = kind        # 'return' 'raise' 'next'
        self.val = val
        self.srv = srv
        self.st = st
        self.fn = fn


def opaque_default(fi):
    return fi.module.name not in SERVER_MODULES


def is_server_field(t, name):
    return t.op == 'attr' and t.args[1] == name


def dump_error(ev):
    """Is this .dumps call given an error reply?"""
    if ev.name == '.dumps' and ev.args and ev.args[0].op == 'dict':
        d, unk = dict_of(ev.args[0])
        e = d.get('error')
        return e is not None and e is not NONE
    return False


def raises(ev, st):
    if ev.name == '.recv_multipart' or ev.name == '.send_multipart':
        return ()
    if ev.name == '.dumps':
        return () if dump_error(ev) else ('BaseException*',)
    if ev.kind == 'format' or ev.kind == 'call' and ev.name in ('repr', 'str', 'format', 'ascii', 'hash', 'print'):
        # the text of an object of the application is made by the application
        return ('BaseException*',) if any(users(a) for a in ev.args) else ()
    if ev.name in ('.loads', 'builtins.__import__', 'sys.excepthook'):
        return ('BaseException*',)
    if ev.kind == 'getitem' and ev.recv is not None and is_server_field(ev.recv, '_serializers'):
        ok = True
        for k in alts(ev.args[0]):
            if is_const(k) and cval(k) == 'json':
                continue
            if k.op in ('item', 'get') and is_server_field(k.args[0], '_clients'):
                continue
            ok = False
        if ok:
            return ()
    if ev.name in ('.poll', '.emit', '.connect', '.close'):
        return ()
    return None


def users(t):
    """Does the value hold something whose methods are the application's?"""
    if t is None or not hasattr(t, 'op'):
        return False
    if t.op == 'call':
        if t.args[0] == '()' or t.args[0].endswith('.loads'):
            return True
        return t.args[0] not in ('type', 'id', 'len', 'isinstance') and t.args[0] in ('str', 'repr', 'tuple', 'list', 'dict', 'set') and any(users(a) for a in t.args[2])
    if t.op in ('item', 'get', 'attr', 'slice'):
        return users(t.args[0])
    if t.op in ('tuple', 'list', 'dict', 'phi', 'star', 'fstr'):
        return any(users(x) for a in t.args for x in (a if isinstance(a, tuple) else (a,)))
    return False


def has_rid(atom, parts):
    return any(rid_term(t, parts) for t in subterms(atom))


def rid_term(t, parts):
    """The request id: the integer made from the second frame."""
    return getattr(t, 'op', None) == 'call' and t.args[0] == 'int' and t.args[2] and \
        mk('item', parts, const(1)) in set(subterms(t.args[2][0]))


def is_any_rid(t):
    if getattr(t, 'op', None) != 'call' or t.args[0] != 'int' or not t.args[2]:
        return False
    return any(getattr(x, 'op', None) == 'item' and x.args[1] is const(1) and x.args[0].op == 'call'
               and x.args[0].args[0] == '.recv_multipart' for x in subterms(t.args[2][0]))


def split_atom(a):
    if a.op in ('lt', 'eq', 'same', 'in'):
        for t in subterms(a):
            if is_any_rid(t):
                return True
            if t.op == 'item' and t.args[0].op == 'call' and t.args[0].args[0] == '.recv_multipart':
                return a.op == 'in' or a.op == 'eq'
    return False


def policy(names=(), kinds=(), opaque=None, record=None, raise_events=OPS + PARSE, split=split_atom, **kw):
    rp = RP(names=set(names) | {'.send_multipart', '.recv_multipart', '.emit'}, kinds=kinds,
              opaque=opaque or opaque_default, record=record, raise_events=raise_events,
              opaque_class=lambda k: k.split(':')[0] not in SERVER_MODULES,
              raises_of=None, split=split, raises=kw.pop('raises', raises), formats=True, max_states=kw.pop('max_states', 1500), **kw)
    # what is stored in the table of serializers is checked by C01
    rp.notnone = lambda t: t.op == 'item' and is_server_field(t.args[0], '_serializers')
    return rp


def segments_of(mode, paths, srv, recv_pred, fn):
    segs = []
    seen = set()

    def scan(trace, facts, kind, val, st):
        cur = None
        for ev in trace:
            if ev.kind == 'loop':
                for it in ev.extra:
                    scan(it.trace, it.facts, 'next', None, it.st)
                if cur is not None:
                    cur[1].append(ev)
                continue
            if ev.kind == 'call' and ev.name == '.recv_multipart' and recv_pred(ev):
                if cur is not None:
                    add(cur, facts, 'next', None, st)
                cur = (ev.value, [])
                continue
            if cur is not None:
                cur[1].append(ev)
        if cur is not None:
            add(cur, facts, kind, val, st)

    def add(cur, facts, kind, val, st):
        k = (cur[0], tuple(cur[1]), kind, val, frozenset(facts.items()))
        if k in seen:
            return
        seen.add(k)
        segs.append(Segment(mode, cur[0], cur[1], facts, kind, val, srv, st, fn))
    for p in paths:
        scan(p.trace, p.facts, p.kind, p.val, p.st)
    return segs


def plain_segments(ctx, make=policy, entries=('run_forever', '_read_and_process_one'), **kw):
    """Segments of a plain server: exclusive loop and lazy processing."""
    ci = cls(ctx, 'RPCServer')
    srv = mk('obj', ci.key, 'sym')
    res = {}
    for e in entries:
        fi = ctx.p.find_method(ci.key, e)
        if fi is None:
            raise AnalysisBroken('anchor vanished: RPCServer.%s' % e)
        ip = ctx.interp(make(**kw))
        paths = ip.run(fi, self_val=srv)
        segs = segments_of(e, paths, srv, lambda ev: True, fi.key)
        if not segs:
            raise AnalysisBroken('%s receives no message' % fi.key)
        res[e] = (paths, segs)
    return res


def qt_slot(ctx):
    """(server object, slot value, poll thread class) of the Qt server: what its poll thread emits to."""
    ci = cls(ctx, 'QtRPCServer')
    pt = cls(ctx, 'QtPollThread')
    srv = mk('obj', ci.key, 'sym')
    init = ctx.p.find_method(ci.key, '__init__')
    ip = ctx.interp(RP(names={'.connect'}, opaque=lambda fi: fi.module.name not in SERVER_MODULES, raising=False))
    slot = None
    for p in ip.run(init, self_val=srv):
        for ev in calls(p.trace, '.connect'):
            if ev.recv is not None and ev.recv.op == 'attr' and ev.recv.args[0].op in ('cls', 'obj', 'attr', 'ext') and ev.args and \
                    ev.args[0].op in ('bound', 'func', 'attr', 'partial'):
                slot = (ev.recv, ev.args[0], ev, {k: v for k, v in p.st.heap.items() if v is srv})
    return srv, slot, pt


def qt_segments(ctx, make=policy, **kw):
    """Segments of the Qt server: poll thread -> signal -> slot in the Qt thread."""
    srv, slot, pt = qt_slot(ctx)
    if slot is None:
        raise AnalysisBroken('Qt server: no slot is connected to the poll thread')
    run = ctx.p.find_method(pt.key, 'run')
    if run is None:
        raise AnalysisBroken('anchor vanished: QtPollThread.run')
    ip = ctx.interp(make(**kw))
    paths = ip.run(run)
    psegs = segments_of('poll', paths, None, lambda ev: True, run.key)
    segs = []
    ran = set()
    for s in psegs:
        for ev in s.events:
            if ev.kind == 'call' and ev.name == '.emit' and ev.recv.args[-1] == slot[0].args[-1]:
                k = (ev.args, frozenset((c, b) for c, b in s.facts.items() if has_rid(c, s.parts)))
                if k in ran:
                    continue
                ran.add(k)
                ip2 = ctx.interp(make(**kw))
                st = State()
                for c, b in s.facts.items():
                    if has_rid(c, s.parts):
                        st.facts[c] = b
                fv = slot[1]
                key = fv.args[0].args[0] if fv.op == 'bound' else fv.args[0]
                fi = ctx.p.funcs[key]
                a = fi.node.args
                names = [x.arg for x in a.posonlyargs + a.args]
                if fv.op == 'bound' or (fi.cls is not None and not fi.is_static):
                    names = names[1:]
                args = dict(zip(names, ev.args))
                me = fv.args[1] if fv.op == 'bound' else srv
                if me is not srv:
                    st.heap.update({k: v for k, v in slot[3].items() if k[0] is me})
                for p in ip2.run(fi, self_val=me, st=st, args=args):
                    segs.append(Segment('qt', s.parts, list(p.trace), p.facts, p.kind, p.val, srv, p.st, fi.key))
    return paths, psegs, segs


def expects(seg):
    """Which request ids are possible on this segment: subset of {'reply', 'none'}."""
    out = set()
    for v, lab in ((-1, 'none'), (0, 'reply'), (1, 'reply'), (41, 'reply')):
        ok = True
        for c, b in seg.facts.items():
            if not isinstance(b, bool):
                continue
            r = eval_atom(c, seg.parts, v)
            if r is not None and r != b:
                ok = False
                break
        if ok:
            out.add(lab)
    return out


def eval_atom(c, parts, v):
    if c.op == 'lt':
        items, k = lt_parts(c)
        tot = k
        for t, co in items:
            if not rid_term(t, parts):
                return None
            tot += co * v
        return tot < 0
    if c.op in ('eq', 'same'):
        a, b = c.args
        if rid_term(a, parts) and is_const(b):
            return v == cval(b)
        if rid_term(b, parts) and is_const(a):
            return v == cval(a)
    if c.op == 'truth' and rid_term(c.args[0], parts):
        return v != 0
    return None


def unparsable(seg):
    """The segment ended because the message could not be parsed."""
    for ev in seg.events:
        if ev.kind == 'raises' and ev.name in PARSE and any(mentions(x, seg.parts) for x in
                                                            (list(ev.args) + ([ev.recv] if ev.recv is not None else []))):
            return True
        if ev.kind == 'call' and ev.name in ('.send_multipart',):
            return False
    return False


def closed_fact(seg):
    for c, b in seg.facts.items():
        if c.op in ('same', 'eq', 'truth'):
            for x in c.args:
                y = x
                while getattr(y, 'op', None) in ('at', 'mu'):
                    y = y.args[0] if y.op == 'at' else y.args[1]
                if getattr(y, 'op', None) == 'attr' and y.args[1] == '_closed':
                    o = [z for z in c.args if z is not x]
                    if c.op == 'truth':
                        return b
                    if o and is_const(o[0]):
                        return b if cval(o[0]) is True else (not b if cval(o[0]) is False else None)
    return None


def payload_dicts(t):
    """Dicts that are serialized into this frame, with the call that does it; None if unknown."""
    res = []
    for a in alts(t):
        if a.op == 'call' and a.args[0] == '.dumps' and a.args[2] and a.args[2][0].op == 'dict':
            res.append((a, a.args[2][0]))
        else:
            return None
    return res


def frames_of(ev):
    if ev.args and ev.args[0].op in ('list', 'tuple'):
        return list(ev.args[0].args)
    return None


def classify(ev):
    """('reply'|'notice'|'other', dest, dumps-call, dict) alternatives of a send."""
    fr = frames_of(ev)
    if fr is None or len(fr) != 2:
        return [('other', None, None, None)]
    pd = payload_dicts(fr[1])
    if pd is None:
        return [('other', fr[0], None, None)]
    res = []
    for call, d in pd:
        m, unk = dict_of(d)
        a = m.get('action')
        k = {'return': 'reply', 'disconnect': 'notice'}.get(cval(a) if a is not None and is_const(a) else None, 'other')
        res.append((k, fr[0], call, d))
    return res
