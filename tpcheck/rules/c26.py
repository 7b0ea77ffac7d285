from .base import *
from ..state import linear
from .c14 import is_clock

EXPLANATION = """
Every method of the timer is interpreted with the fields that several methods use changing whenever the lock is let go.  Lockset: those fields are
used with the lock held.  Each turn of the timer thread invokes the callback at most once, without the lock, after seeing under the lock that the
timer runs, that its limit is not reached and counting the invocation, and after sleeping what is left of the interval since the recorded
beginning of the last one; a thread that ends gives up its place in the same locked region in which it decided to end.
"""
ASSUMPTIONS = ['sleep does not return early', 'fields of a timer are not changed from outside the class']
MONOTONIC = ('time.perf_counter', 'time.monotonic')
NOFAIL = ('time.sleep', 'time.time') + MONOTONIC + ('threading.Thread', 'threading.Lock', 'threading.RLock', '.start', 'max', 'min', 'float')


class T:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ci = cls(ctx, 'Timer')
        self.shared = set()
        for n, m in self.ci.methods.items():
            if n == '__init__':
                continue
            ip = ctx.interp(RP(record=lambda e: e.kind == 'write', raising=True, max_states=2000, want_loops=True, nofail=NOFAIL))
            self.me = ip.self_obj(self.ci.key)
            for p in ip.run(m):
                self.shared |= {e.name for e in flat(p.trace) if e.kind == 'write' and e.recv is self.me}

    def run(self, m, **kw):
        ip = self.ctx.interp(RP(record=lambda e: e.kind in ('call', 'write', 'read', 'enter', 'exit', 'caught'), opaque=lambda f: f.module.name != 'teleprox.timer', want_loops=True, merge=False, raising=True, max_states=3000,
                                reads=lambda b, n: b is self.me and n in self.shared, volatile=lambda b, n: b is self.me and n in self.shared, nofail=NOFAIL, raise_events=('()', '.callback')))
        return ip, ip.run(m, **kw)

    def is_field(self, t, name):
        while t is not None and t.op in ('at', 'loopvar', 'mu'):
            t = next((a for a in t.args if hasattr(a, 'op')), None)
        return t is not None and t.op == 'attr' and t.args[0] is self.me and t.args[1] == name


def region(evs, i):
    """Index of the enter event of the locked region an event is in."""
    if not evs[i].locks:
        return None
    for j in range(i, -1, -1):
        k = evs[j].kind if evs[j].kind != 'call' else {'.acquire': 'enter', '.release': 'exit'}.get(evs[j].name)
        if k == 'exit' and j < i and not evs[j].locks:
            return j
        if k == 'enter':
            return j
    return None


def counts(ctx, t, evs):
    """(events that count an invocation, the counting field)"""
    r = []
    for i, e in enumerate(evs):
        if e.kind == 'write' and e.recv is t.me and e.value is not None:
            its, k = linear(e.value)
            its = dict(its) if not isinstance(its, dict) else its
            if k == 1 and len(its) == 1 and list(its.values()) == [1] and t.is_field(list(its)[0], e.name):
                r.append(i)
    return r


def limit_facts(t, facts, field):
    """True: the limit is known not to be reached; False: known to be reached; None."""
    for c, b in facts.items():
        if not isinstance(b, bool):
            continue
        if c.op == 'isnone' and t.is_field(c.args[0], 'limit') and b:
            return True
        if c.op == 'lt':
            its, k = lt_parts(c)
            d = {'l' if t.is_field(x, 'limit') else 'c' if t.is_field(x, field) else '?': co for x, co in its}
            if d == {'l': -1, 'c': 1} and k == 0:
                return b
            if d == {'l': 1, 'c': -1} and k == -1 or d == {'l': 1, 'c': -1} and k == 0:
                if b:
                    return False
                if k == -1:
                    return True
    return None


def running(t, facts, evs):
    """{index of a read of running: its value}"""
    r = {}
    for i, e in enumerate(evs):
        if e.kind == 'read' and e.name == 'running':
            b = facts.get(e.value)
            if b is None:
                b = facts.get(mk('truth', e.value))
            if b is None:
                for c, x in facts.items():
                    if c.op in ('eq', 'same') and e.value in c.args and isinstance(x, bool) and (TRUE in c.args or FALSE in c.args):
                        b = x if TRUE in c.args else not x
            if isinstance(b, bool):
                r[i] = b
    return r


def turn(ctx, t, m, it, cbs):
    evs = list(flat(it.trace))
    calls_ = [i for i, e in enumerate(evs) if is_callback(t, e)]
    for i, e in enumerate(evs):
        if e.kind == 'write' and e.recv is t.me and e.name == 'thread':
            ctx.fail('C26.thread', 'thread', e.where, 'the timer thread gives up its place and goes on')
    if not calls_:
        return
    cbs.append(it)
    i = calls_[0]
    e = evs[i]
    ctx.check(len(calls_) == 1, 'C26.once', 'callback', e.where, 'the callback is invoked %d times in one turn' % len(calls_))
    ctx.check(not e.locks, 'C26.lock', 'callback', e.where, 'the callback is invoked with the lock held, so it cannot stop the timer')
    # the copy of a proxy
    isproxy = [b for c, b in it.facts.items() if c.op == 'isinst' and t.is_field(c.args[0], 'callback') and isinstance(b, bool)]
    copied = e.recv is not None and any(hasattr(x, 'op') and x.op == 'call' and 'copy' in x.args[0] for x in subterms(e.recv))
    ctx.check(copied or isproxy == [False], 'C26.proxy', 'callback', e.where, 'a proxy callback is used in the timer thread without copying it')
    waits = [j for j, x in enumerate(evs) if x.kind == 'call' and x.name in ('time.sleep', '.wait', '.sleep')]
    # seen running
    r = running(t, it.facts, evs)
    seen = [j for j, b in r.items() if b and j < i and all(w < j for w in waits)]
    ctx.check(bool(seen), 'C26.stop', 'callback', e.where, 'the callback is invoked without having seen, after sleeping, that the timer still runs')
    # limit
    cn = [j for j in counts(ctx, t, evs) if j < i]
    if ctx.check(len(cn) == 1, 'C26.limit', 'count', e.where, 'an invocation is counted %d times' % len(cn)):
        f = evs[cn[0]].name
        ctx.check(limit_facts(t, it.facts, f) is True, 'C26.limit', 'limit', e.where, 'the callback is invoked although its limit may be reached')
        ctx.check(bool(seen) and region(evs, cn[0]) == region(evs, seen[-1]), 'C26.stop', 'region', evs[cn[0]].where, 'the lock is let go between seeing that the timer runs and counting the invocation') if seen else None
        for j, x in enumerate(evs):
            ctx.check(not (x.kind == 'write' and x.recv is t.me and x.name == f and j not in cn), 'C26.limit', 'count changed', x.where, 'the count of invocations is changed by something else than an invocation')
    # interval
    lasts = [j for j, x in enumerate(evs) if x.kind == 'write' and x.recv is t.me and x.value is not None and is_clock(x.value) and j < i]
    if not ctx.check(bool(lasts), 'C26.interval', 'began', e.where, 'the time at which an invocation begins is not recorded before it'):
        return
    f = evs[lasts[-1]].name
    clk = evs[lasts[-1]].value
    made = [j for j, x in enumerate(evs) if x.kind == 'call' and x.value is clk]
    ctx.check(bool(made) and all(w < made[-1] for w in waits), 'C26.interval', 'time', evs[lasts[-1]].where, 'the time recorded for an invocation was taken before sleeping')
    for x in evs:
        if x.kind == 'call' and x.value is not None and is_clock(x.value):
            ctx.check(x.name in MONOTONIC, 'C26.interval', x.name, x.where, 'the interval is measured with a clock that can be set')
    for x in evs:
        ctx.check(not (x.kind == 'write' and x.recv is t.me and x.name == f and x.value is not None and not is_clock(x.value)), 'C26.interval', 'forgotten', x.where,
                  'the timer thread forgets when the last invocation began')
    clocks = {x.name for x in evs if x.kind == 'call' and x.value is not None and is_clock(x.value)}
    ctx.check(len(clocks) <= 1, 'C26.interval', 'clocks', e.where, 'the interval is measured with different clocks: %s' % ', '.join(sorted(clocks)))
    first = any(c.op == 'isnone' and b is True and t.is_field(c.args[0], f) for c, b in it.facts.items())
    over = any(c.op == 'lt' and isinstance(b, bool) and elapsed(t, c, b, f) for c, b in it.facts.items())
    slept = any(x.kind == 'call' and x.name == 'time.sleep' and x.args and remaining(t, x.args[0], f) for x in evs[:i])
    ctx.check(first or over or slept, 'C26.interval', 'interval', e.where, 'the callback is invoked although less than the interval may have passed since the last invocation began')


def is_callback(t, e):
    return e.kind in ('call', 'raises') and e.recv is not None and e.name in ('()', '.callback') and (any(hasattr(x, 'op') and t.is_field(x, 'callback') for x in subterms(e.recv)) or e.name == '.callback' and e.recv is t.me)


def classify(t, its, f):
    d = {}
    for x, co in (its.items() if isinstance(its, dict) else its):
        k = 'interval' if t.is_field(x, 'interval') else 'last' if t.is_field(x, f) else 'clock' if is_clock(x) else '?'
        if k in d:
            return {}
        d[k] = co
    return d


def remaining(t, v, f):
    """interval - (now - last), or more"""
    if v.op == 'phi':
        return all(remaining(t, x, f) for x in v.args)
    if v.op == 'call' and v.args[0] == 'max':
        return any(remaining(t, x, f) for x in v.args[2])
    if t.is_field(v, 'interval'):
        return True
    its, k = linear(v)
    return classify(t, its, f) == {'interval': 1, 'last': 1, 'clock': -1} and k >= 0


def elapsed(t, c, b, f):
    its, k = lt_parts(c)
    d = classify(t, its, f)
    if d == {'interval': -1, 'last': -1, 'clock': 1} and k == 0:      # now - last < interval
        return not b
    if d == {'interval': 1, 'last': 1, 'clock': -1}:                    # interval < now - last
        return b
    return False


def thread(ctx, t, m):
    ip, paths = t.run(m)
    cbs = []
    n = 0
    for p in paths:
        evs = list(flat(p.trace))
        own = [e for e in p.trace if e.kind != 'loop']
        for l in p.trace:
            if l.kind == 'loop':
                for it in l.extra:
                    turn(ctx, t, m, it, cbs)
        for e in own:
            if e.kind == 'call' and is_callback(t, e):
                # the turn in which the callback failed does not record the call; a call outside of a loop is a second one
                ctx.fail('C26.once', 'outside', e.where, 'the callback is invoked outside of the loop that checks limit, interval and stop')
        if p.kind == 'endless':
            ctx.fail('C26.stop', 'end', m.key, 'the timer thread never ends')
            continue
        n += 1
        gives = [i for i, e in enumerate(own) if e.kind == 'write' and e.recv is t.me and e.name == 'thread' and e.value is NONE]
        if not ctx.check(bool(gives), 'C26.restart', p.kind, m.key, 'the timer thread ends and keeps its place, so the timer cannot be started again'):
            continue
        g = gives[-1]
        off = [i for i, e in enumerate(own) if e.kind == 'write' and e.recv is t.me and e.name == 'running' and e.value is FALSE]
        r = running(t, p.facts, own)
        stopped = [i for i, b in r.items() if not b]
        if p.kind == 'return':
            fields = {evs[i].name for i in counts(ctx, t, evs)} or {'_call_count'}
            lim = any(limit_facts(t, p.facts, f) is False for f in fields)
            if ctx.check(bool(stopped) or lim, 'C26.stop', 'reason', own[g].where, 'the timer thread ends although it was not stopped and its limit is not reached'):
                if stopped:
                    ctx.check(region(own, stopped[-1]) == region(own, g), 'C26.restart', 'region', own[g].where, 'the lock is let go between seeing the timer stopped and giving up its place: a start in between is lost')
                else:
                    rd = [i for i, e in enumerate(own) if e.kind == 'read' and e.name in fields]
                    ctx.check(bool(rd) and region(own, rd[-1]) == region(own, g), 'C26.restart', 'region', own[g].where, 'the lock is let go between seeing the limit reached and giving up its place: a start in between is lost')
                    ctx.check(any(region(own, i) == region(own, g) for i in off), 'C26.stop', 'running', own[g].where, 'a timer that reached its limit still says it is running')
        else:
            ctx.check(any(region(own, i) == region(own, g) for i in off) or bool(stopped), 'C26.stop', 'failed', own[g].where, 'a timer whose thread failed still says it is running')
    if not cbs or n < 1:
        raise AnalysisBroken('the timer thread has %d turns with a callback and %d ends' % (len(cbs), n))
    ctx.check(True, 'C26.once', 'turns', m.key, '')


def start(ctx, t, m, run):
    ip, paths = t.run(m)
    n = 0
    for p in paths:
        if p.kind != 'return':
            continue
        n += 1
        evs = list(flat(p.trace))
        on = [i for i, e in enumerate(evs) if e.kind == 'write' and e.recv is t.me and e.name == 'running' and e.value is TRUE]
        zero = [i for i, e in enumerate(evs) if e.kind == 'write' and e.recv is t.me and e.value is const(0)]
        made = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == 'threading.Thread']
        kept = [i for i, e in enumerate(evs) if e.kind == 'write' and e.recv is t.me and e.name == 'thread']
        begun = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == '.start' and made and e.recv is evs[made[0]].value]
        read = [i for i, e in enumerate(evs) if e.kind == 'read' and e.name == 'thread']
        none = [i for i in read if p.facts.get(mk('isnone', evs[i].value)) is True]
        some = [i for i in read if p.facts.get(mk('isnone', evs[i].value)) is False]
        if not ctx.check(bool(on), 'C26.start', 'running', m.key, 'start returns without the timer running'):
            continue
        ctx.check(bool(zero), 'C26.restart', 'count', m.key, 'a timer that reached its limit cannot be started again: its count is kept')
        if made:
            if ctx.check(bool(none) and none[0] < made[0], 'C26.start', 'second', evs[made[0]].where, 'start starts a thread without having seen that there is none'):
                same = {region(evs, i) for i in [none[0]] + kept[:1] + on[-1:]}
                ctx.check(len(same) == 1 and None not in same and bool(kept), 'C26.start', 'region', evs[made[0]].where, 'the lock is let go between seeing that there is no thread and keeping the new one')
            ctx.check(bool(begun), 'C26.start', 'begun', evs[made[0]].where, 'the thread of the timer is not started')
            tg = dict(evs[made[0]].kwargs).get('target')
            ctx.check(tg is not None and run.key in show(tg) + str(tg) or tg is not None and run.name in show(tg), 'C26.start', 'target', evs[made[0]].where, 'the thread of the timer runs %s' % short(tg, 60))
            ctx.check(len(made) == 1, 'C26.start', 'threads', evs[made[0]].where, 'start starts %d threads' % len(made))
        else:
            ok = bool(some)
            ctx.check(ok, 'C26.start', 'none', m.key, 'start returns without a thread')
            if some:
                ctx.check(region(evs, some[-1]) == region(evs, on[-1]), 'C26.restart', 'resume', evs[on[-1]].where, 'the lock is let go between saying that the timer runs and seeing that there is a thread')
        for e in evs:
            ctx.check(not is_callback(t, e), 'C26.once', 'in start', e.where, 'start invokes the callback in the calling thread') if e.kind == 'call' else None
    if n < 1:
        raise AnalysisBroken('start has %d paths' % n)


def stop(ctx, t, m):
    ip, paths = t.run(m)
    for p in paths:
        evs = list(flat(p.trace))
        off = [e for e in evs if e.kind == 'write' and e.recv is t.me and e.name == 'running' and e.value is FALSE]
        last = [e for e in evs if e.kind == 'write' and e.recv is t.me and e.name == 'running']
        already = [b for b in running(t, p.facts, evs).values()]
        ctx.check(p.kind == 'return' and (bool(off) and last[-1] is off[-1] or not last and already[-1:] == [False]), 'C26.stop', 'stop', m.key, 'stop does not stop the timer')
        for e in evs:
            ctx.check(not (e.kind == 'write' and e.name == 'thread'), 'C26.stop', 'thread', e.where, 'stop gives up the place of a thread that may still be in its loop: another one would run beside it')


def constructor(ctx, t):
    m = ctx.p.find_method(t.ci.key, '__init__')
    s = ctx.p.find_method(t.ci.key, 'start')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write'), opaque=lambda f: f is s, raising=False, merge=False))
    for p in ip.run(m):
        if p.kind != 'return':
            continue
        evs = list(flat(p.trace))
        asked = p.facts.get(sym('start'))
        if asked is None:
            asked = p.facts.get(mk('truth', sym('start')))
        began = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == '@Timer.start']
        ctx.check(bool(began) == bool(asked), 'C26.start', 'constructor', m.key, 'the timer is %sstarted when it is made' % ('' if began else 'not '))
        w = {e.name: e.value for e in evs if e.kind == 'write' and e.recv is t.me}
        for k in ('callback', 'limit', 'interval'):
            v = w.get(k)
            ctx.check(v is not None and (v is sym(k) or v.op == 'call' and v.args[0] in ('float', 'int') and v.args[0] != 'int' and sym(k) in v.args[2]), 'C26.made', k, m.key, 'the %s of a timer is %s' % (k, short(v, 60)))
        if began:
            late = [e.name for e in evs[began[0]:] if e.kind == 'write']
            ctx.check(not late, 'C26.start', 'early', m.key, 'the timer is started before its %s is set' % ', '.join(late))


def locks(ctx, t, run):
    held = None
    for n, m in sorted(t.ci.methods.items()):
        if n.startswith('_') and m is not run:
            continue        # (analysed where it is called)
        ip, paths = t.run(m)
        for p in paths:
            for e in flat(p.trace):
                if e.kind == 'call' and e.name == '.join' and e.recv is not None and any(hasattr(x, 'op') and t.is_field(x, 'thread') for x in subterms(e.recv)):
                    ctx.check(not e.locks, 'C26.lock', 'join in %s' % n, e.where, '%s waits for the timer thread with the lock that the thread needs to end' % n)
                if e.kind in ('read', 'write') and e.recv is t.me and e.name in t.shared:
                    l = set(e.locks)
                    ok = bool(l) and (held is None or bool(held & l))
                    if ok:
                        held = l if held is None else held & l
                    ctx.check(ok, 'C26.lock', '%s in %s' % (e.name, n), e.where, 'the %s of a timer is used by %s without the lock' % (e.name, n))
    ctx.require('C26.lock', 8)


def check(ctx):
    t = T(ctx)
    ms = {n: ctx.p.find_method(t.ci.key, n) for n in ('start', 'stop')}
    for n, m in ms.items():
        if m is None:
            raise AnalysisBroken('Timer.%s not found' % n)
    run = None
    ip, paths = t.run(ms['start'])
    for p in paths:
        for e in flat(p.trace):
            if e.kind == 'call' and e.name == 'threading.Thread':
                tg = dict(e.kwargs).get('target')
                for n, m in t.ci.methods.items():
                    if tg is not None and show(tg).endswith('.' + n):
                        run = m
    if run is None:
        raise AnalysisBroken('the method that the timer thread runs was not found')
    locks(ctx, t, run)
    thread(ctx, t, run)
    start(ctx, t, ms['start'], run)
    stop(ctx, t, ms['stop'])
    constructor(ctx, t)
    ctx.require('C26.limit', 2)
    ctx.require('C26.interval', 3)
