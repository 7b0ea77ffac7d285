import ast
import re
from .base import *

EXPLANATION = """
The clean-up helpers are interpreted with the signalling system call recorded and failing or not.  Search: an entry of the result has its process id and
its command taken from one line of the process list, and was added only where the command (not the line with the process id) is known
to contain the search string.  Kill by search: every signalled id is that of an entry found by the last search for the caller's string, made after waiting, what was
found is returned, and with the empty string nothing is signalled.  Kill by id and the cleaner: over two processes with every outcome of each signal, exactly the
given ids are signalled, once each, and a process that was alive makes the caller see an AssertionError (unless an exception is on its way, which is passed on).
"""
ASSUMPTIONS = ['the library runs on Linux', 'assertions are enabled', 'a signal that is delivered means that the process was alive', 'the process list is what ps prints']
KILLERS = ('os.killpg', 'os.system', 'os.popen')


class U:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = ctx.p.modules['teleprox.util']

    def interp(self, opaque=(), **kw):
        n = [0]

        def result(ev, st):
            if ev.name == '@find_procs':
                k = sum(1 for e in flat(st.trace) if e.kind == 'call' and e.name == '@find_procs')
                return mk('sym', 'found#%d' % k, None)

        def raises(ev, st):
            if ev.kind == 'call' and ev.name == 'os.kill':
                return ('OSError*',)
            return ()
        return self.ctx.interp(RP(record=lambda e: e.kind in ('call', 'write', 'caught'), opaque=lambda f: f.module is not self.m or f.name in opaque, want_loops=True, merge=False,
                                  raises=raises, raise_events=('os.kill',), result=result, max_states=3000, **kw))

    def fn(self, name):
        f = self.m.funcs.get(name)
        if f is None:
            raise AnalysisBroken('teleprox.util.%s is not there' % name)
        return f


def signals(evs):
    """(event, process id, delivered?)"""
    return [(e, e.args[0] if e.args else None, e.kind == 'call') for e in evs if e.kind in ('call', 'raises') and e.name == 'os.kill']


def others(ctx, evs, who):
    for e, x, d in signals(evs):
        ctx.check(len(e.args) > 1 and e.args[1] is not const(0) and 'SIGCONT' not in show(e.args[1]) and 'SIGSTOP' not in show(e.args[1]), 'C30.only', 'ended', e.where, '%s: signal %s does not end a process' % (who, short(e.args[1] if len(e.args) > 1 else None)))
    for e in evs:
        if e.kind == 'call' and (e.name in KILLERS or e.name.startswith('subprocess.') and any(is_const(t) and isinstance(cval(t), str) and 'kill' in cval(t) for a in e.args for t in subterms(a) if hasattr(t, 'op'))):
            ctx.fail('C30.only', 'other way', e.where, '%s signals processes by %s' % (who, e.name))


def search(ctx, u):
    f = u.fn('find_procs')
    ip = u.interp(split=lambda a: True)
    s = sym(f.node.args.args[0].arg)
    n = 0
    for p in ip.run(f):
        if p.kind != 'return':
            continue
        v = ip.freeze(p.st, p.val)
        evs = list(flat(p.trace))
        for e in evs:
            if e.kind == 'call' and e.name.startswith('subprocess.') and e.args:
                words = ' '.join(str(cval(t)) for a in e.args for t in subterms(a) if hasattr(t, 'op') and is_const(t))
                ctx.check(re.search(r'\bpid\b', words) and re.search(r'\b(command|args|cmd)\b', words), 'C30.search', 'ps', e.where, 'the process list (%s) does not give the command lines' % words)
                ws = words.replace(',', ' , ').split()
                opts = [w for i, w in enumerate(ws) if w.startswith('-') or i and ws[i - 1] in ('-o', '-eo', '-Ao', '-O') or w == ',' or i and ws[i - 1] == ',']
                extra = [w for w in ws[1:] if w not in opts and not re.search(r'pid|command|args|cmd', w) and 'e' in w and w.isalpha()]
                ctx.check(not extra, 'C30.search', 'environment', e.where, 'the process list (%s) gives the environment of the processes with their command line' % words)
        pieces = [(it.trace, it.facts) for l in p.trace if l.kind == 'loop' for it in l.extra]
        entries = []
        for tr, facts in pieces:
            for e in tr:
                if e.kind == 'call' and e.name in ('.append', '.add') and e.args and e.args[0].op == 'tuple':
                    entries.append((e.args[0], {c for c, b in facts.items() if b is True}, e.where))
        for t in outer(v):
            inc = t.args[2].args[0] if getattr(t.args[2], 'op', '') == 'filter' else ((),)
            for conj in inc:
                entries.append((t.args[0], {c for c, b in conj if b is True}, f.key))
        for t, conds, where in entries:
            n += 1
            pid = t.args[0]
            while pid.op == 'call' and pid.args[0] in ('int', '.strip') and (pid.args[2] or pid.args[1] is not None):
                pid = pid.args[2][0] if pid.args[2] else pid.args[1]
            ok = pid.op == 'item' and pid.args[1] is const(0) and pid.args[0].op == 'call' and pid.args[0].args[0] in ('.partition', '.split')
            if not ctx.check(ok, 'C30.search', 'pid', where, 'the process id of an entry is %s, not the first field of its line' % short(pid, 80)):
                continue
            parts = pid.args[0]
            limit = parts.args[0] == '.partition' or len(parts.args[2]) > 1 and parts.args[2][1] is const(1) or dict(parts.args[3]).get('maxsplit') is const(1)
            cmds = [c.args[1] for c in conds if c.op == 'in' and c.args[0] is s]
            good = [x for x in cmds if limit and base_of(x).op == 'item' and base_of(x).args[0] is parts and is_const(base_of(x).args[1]) and cval(base_of(x).args[1]) in ((2, -1) if parts.args[0] == '.partition' else (1, -1))]
            ctx.check(bool(good), 'C30.search', 'matches', where, 'an entry is reported without its command line being known to contain the search string (%s)' % (', '.join(short(x, 60) for x in cmds) or 'nothing is'))
            src = parts.args[1]
            ctx.check(src is not None and src.op == 'call' and src.args[0] in ('.lstrip', '.strip'), 'C30.search', 'field', where, 'the first field of a line that begins with blanks is empty')
        others(ctx, evs, 'the search')
        for e, x, d in signals(evs):
            ctx.fail('C30.only', 'search', e.where, 'the search signals %s' % short(x, 60))
    if not n:
        raise AnalysisBroken('the search reports nothing')


def outer(v):
    """The comprehensions whose elements are the elements of v."""
    for a in alts(v):
        if a.op == 'comp' and a.args[0].op == 'tuple':
            yield a
        elif a.op in ('list', 'tuple', 'star', 'many') or a.op == 'call' and a.args[0] in ('list', 'tuple', 'sorted'):
            for x in (a.args if a.op != 'call' else a.args[2]):
                yield from outer(x)


def base_of(x):
    while x.op == 'call' and x.args[0] in ('.strip', '.lstrip', '.rstrip') and x.args[1] is not None:
        x = x.args[1]
    return x


def by_search(ctx, u):
    f = u.fn('kill_procs')
    s = sym(f.node.args.args[0].arg)
    ip = u.interp(('find_procs',), split=lambda a: True)
    n = 0
    a = f.node.args
    for x, d in zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults):
        ctx.check(x != s.args[0] or not (isinstance(d, ast.Constant) and isinstance(d.value, str)), 'C30.found', 'default', f.key, 'a caller who gives no search string has other processes killed')
    for p in ip.run(f):
        evs = list(flat(p.trace))
        others(ctx, evs, 'killing by search')
        found = [e for e in evs if e.kind == 'call' and e.name == '@find_procs']
        sig = signals(evs)
        for e in found:
            ctx.check(len(e.args) == 1 and e.args[0] is s, 'C30.found', 'string', e.where, 'the processes of %s are searched, not those the caller asked for' % short(e.args[0] if e.args else None, 60))
        if not sig:
            continue
        n += 1
        if not ctx.check(bool(found), 'C30.found', 'searched', sig[0][0].where, 'processes are signalled that were not searched'):
            continue
        last = found[-1].value
        i = evs.index(found[-1])
        for e, x, d in sig:
            ok = x is mk('item', mk('elem', last), const(0))
            ctx.check(ok, 'C30.found', 'entry', e.where, '%s is signalled, which is not a process the last search found' % short(x, 80))
            ctx.check(not any(z.kind == 'call' and z.name == 'time.sleep' for z in evs[i:evs.index(e)]), 'C30.found', 'old', e.where, 'a process is signalled that was found before waiting: its id may belong to another by now')
        if p.kind == 'return':
            v = ip.freeze(p.st, p.val)
            ctx.check(any(t is last or t is mk('elem', last) for t in subterms(v)), 'C30.report', 'found', f.key, 'processes were found and signalled and the caller gets %s' % short(v, 60))
    if not n:
        raise AnalysisBroken('killing by search signals nothing')
    ip = u.interp()
    a = f.node.args.args[0].arg
    for p in ip.run(f, args={a: const('')}):
        sig = signals(flat(p.trace))
        ctx.check(not sig, 'C30.empty', 'empty', sig[0][0].where if sig else f.key, 'with an empty search string every process is signalled')


def by_id(ctx, u):
    a, b = sym('pid#1'), sym('pid#2')
    f = u.fn('assert_pids_dead')
    ip = u.interp()
    seen = set()
    for p in ip.run(f, args={f.node.args.args[0].arg: mk('tuple', a, b)}):
        seen.add(judge(ctx, p, (a, b), f.key, 'C30.ids', None))
    if len(seen) < 2:
        raise AnalysisBroken('killing by id has one outcome')
    f = u.fn('assert_pid_dead')
    ip = u.interp()
    for p in ip.run(f, args={f.node.args.args[0].arg: a}):
        judge(ctx, p, (a,), f.key, 'C30.ids', None)
    f = u.fn('kill_pid')
    ip = u.interp()
    for p in ip.run(f, args={f.node.args.args[0].arg: a}):
        sig = signals(flat(p.trace))
        ctx.check([x for e, x, d in sig] == [a], 'C30.ids', 'one', f.key, 'asked to kill one process, %s are signalled' % ', '.join(short(x, 40) for e, x, d in sig))
        others(ctx, list(flat(p.trace)), f.key)


def judge(ctx, p, pids, where, rule, exc):
    evs = list(flat(p.trace))
    others(ctx, evs, where)
    sig = signals(evs)
    got = [x for e, x, d in sig]
    for e, x, d in sig:
        ctx.check(x in pids, rule, 'given', e.where, '%s is signalled, which was not given' % short(x, 60))
    ctx.check(len(got) == len(set(got)) and set(got) >= set(pids), rule, 'each', where, 'of the given processes %d are checked' % len(set(got) & set(pids)))
    alive = any(d for e, x, d in sig)
    if exc:
        ctx.check(p.kind == 'return', 'C30.report', 'replaced', where, 'an exception on its way is replaced by one about a process')
    elif alive:
        ctx.check(p.kind == 'raise' and p.val.args[0] == 'AssertionError', 'C30.report', 'alive', where, 'a process was alive and the caller is not told')
    else:
        ctx.check(p.kind == 'return', 'C30.report', 'dead', where, 'all processes were dead and the caller sees %s' % short(p.val, 40))
    if p.kind == 'return' and exc is not None:
        ctx.check(p.val is FALSE or p.val is NONE, 'C30.report', 'swallowed', where, 'the cleaner swallows the exception that left its block')
    return alive


def cleaner(ctx, u):
    ci = cls(ctx, 'ProcessCleaner')
    ip = u.interp()
    me = ip.self_obj(ci.key)
    find = lambda n: ctx.p.find_method(ci.key, n) or bad(n)

    def bad(n):
        raise AnalysisBroken('ProcessCleaner.%s is not there' % n)
    add = find('add')
    names = [x.arg for x in add.node.args.args][1:]
    proc, pid = sym('proc'), mk('sym', 'pid#1', 'ext:int')
    begin = [p.st for p in ip.run(find('__init__'), self_val=me) if p.kind == 'return']
    one = []
    for st in begin:
        st = clean(st)
        one += [clean(p.st) for p in ip.run(add, self_val=me, st=st, args={names[0]: const('name'), names[1]: pid}) if p.kind == 'return']
    two = []
    for st in one:
        st = clean(st)
        st.facts[mk('isinst', proc, ext('str'))] = False
        two += [clean(p.st) for p in ip.run(add, self_val=me, st=st, args={names[0]: proc, names[1]: NONE}) if p.kind == 'return']
    if not two:
        raise AnalysisBroken('no process can be added to the cleaner')
    ex = find('__exit__')
    en = [x.arg for x in ex.node.args.args][1:]
    k = set()
    for exc in (False, True):
        for st in two:
            args = {n: (sym('exc#%s' % n) if exc else NONE) for n in en}
            s = clean(st)
            if exc:
                for v in args.values():
                    s.facts[mk('isnone', v)] = False
                    s.facts[v] = True
            for p in ip.run(ex, self_val=me, st=s, args=args):
                k.add(judge(ctx, p, (pid, mk('attr', proc, 'pid')), ex.key, 'C30.cleaner', exc))
    if len(k) < 2:
        raise AnalysisBroken('the cleaner has one outcome')
    for p in ip.run(find('__enter__'), self_val=me):
        ctx.check(p.kind == 'return' and p.val is me, 'C30.cleaner', 'enter', ci.key, 'the cleaner does not give itself to its block')


def clean(st):
    s = st.fork()
    s.trace = ()
    return s


def check(ctx):
    u = U(ctx)
    search(ctx, u)
    by_search(ctx, u)
    by_id(ctx, u)
    cleaner(ctx, u)
    ctx.require('C30.search', 1)
    ctx.require('C30.found', 3)
    ctx.require('C30.cleaner', 6)
