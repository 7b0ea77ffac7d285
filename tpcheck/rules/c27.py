from .base import *
from ..state import linear

EXPLANATION = """
The creating methods of a shared array are interpreted and the object they return is compared with the contract: the array of the result lies in the
block the same call created, has the shape and type asked for, the block is at least shape times item size, nothing but zeros (or the copied
array, all of it) is written, and the close flag is the caller's.  What reduce gives is applied by the interpreter to what reload accepts: the
object that comes out is attached to the same block with the shape, type and strides of the original and without the close flag.  Every array
enters the list that close_all goes through; there every element with the flag is closed and unlinked, none without, and the function is registered
to run at exit when the module is imported.
"""
ASSUMPTIONS = ['a newly created block of shared memory is zeroed by the operating system', 'closing a block does not fail and unlinking it fails only when it is gone already',
               'the array is used as it was created (no other buffer put in its place)']
SHM = 'multiprocessing.shared_memory.SharedMemory'
FIELDS = ('shmem', 'data', 'close')


def local(f):
    return f.module.name != 'teleprox.shmem'


def base_of(t):
    while t is not None and t.op in ('upd', 'mu', 'at'):
        t = t.args[0]
    return t


def kw(t, name, pos=None):
    if t is None or t.op != 'call':
        return None
    d = dict(t.args[3])
    if name in d:
        return d[name]
    return t.args[2][pos] if pos is not None and pos < len(t.args[2]) else None


def is_ndarray(t):
    return t is not None and t.op == 'call' and t.args[0] == 'numpy.ndarray'


def factors(t):
    """factors of a product"""
    if t.op == 'bin' and t.args[0] == '*' or t.op == 'mul':
        return [y for x in t.args if hasattr(x, 'op') for y in factors(x)]
    if t.op == 'call' and t.args[0] in ('int',) and len(t.args[2]) == 1:
        return factors(t.args[2][0])
    return [t]


def covers(t, shape, dtype):
    """Is the number of bytes t at least what an array of this shape and type takes?"""
    if t is None:
        return False
    if t.op == 'phi':
        return all(covers(x, shape, dtype) for x in t.args)
    if t.op == 'call' and t.args[0] == 'max':
        return any(covers(x, shape, dtype) for x in t.args[2])
    if t.op == 'call' and t.args[0] == 'int':
        return covers(t.args[2][0], shape, dtype)
    src = shape.args[0] if shape.op == 'attr' and shape.args[1] == 'shape' else None
    if src is not None and dtype is mk('attr', src, 'dtype') and t is mk('attr', src, 'nbytes'):
        return True
    fs = factors(t)
    if len(fs) == 1:
        its, k = linear(t)
        its = dict(its)
        return k >= 0 and bool(its) and t not in its and all(c > 0 for c in its.values()) and any(covers(x, shape, dtype) for x in its)
    rest = []
    n = s = 0
    for f in fs:
        if f.op == 'call' and f.args[0] in ('numpy.prod', 'math.prod') and f.args[2] and f.args[2][0] is shape or src is not None and f is mk('attr', src, 'size'):
            n += 1
        elif is_item(f, dtype, src):
            s += 1
        elif is_const(f) and isinstance(cval(f), int) and cval(f) >= 1:
            pass
        else:
            rest.append(f)
    return n == 1 and s == 1 and not rest


def is_item(f, dtype, src):
    if f.op != 'attr' or f.args[1] != 'itemsize':
        return False
    d = f.args[0]
    if d is dtype or d is src and dtype is mk('attr', src, 'dtype'):
        return True
    return d.op == 'call' and d.args[0] == 'numpy.dtype' and d.args[2] and d.args[2][0] is dtype


def same_type(a, b):
    def norm(x):
        return x.args[2][0] if x is not None and x.op == 'call' and x.args[0] == 'numpy.dtype' and x.args[2] else x
    return a is not None and norm(a) is norm(b)


def field(p, o, name):
    return p.st.heap.get((o, 'a', name))


def made(ctx, ci, m, shape, dtype, content):
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'setitem', 'write'), opaque=local, merge=False, raising=False, want_loops=True))
    n = 0
    for p in ip.run(m):
        if p.kind != 'return':
            continue
        n += 1
        o = p.val
        S, D, c = (field(p, o, k) for k in FIELDS)
        where = m.key
        if not ctx.check(ip.type_of(p.st, o) == ci.key and None not in (S, D, c), 'C27.made', m.name + ' result', where, '%s gives %s' % (m.name, short(o, 60))):
            continue
        D0 = base_of(D)
        fresh = [e for e in flat(p.trace) if e.kind == 'call' and e.name == SHM and e.value is base_of(S)]
        if ctx.check(bool(fresh) and kw(base_of(S), 'create', 1) is TRUE, 'C27.made', m.name + ' block', where, 'the block of the new array is %s' % short(S, 80)):
            size = kw(base_of(S), 'size', 2)
            ctx.check(size is not None and covers(size, shape, dtype), 'C27.size', m.name + ' size', fresh[0].where, 'the block has %s bytes' % short(size, 80))
        if ctx.check(is_ndarray(D0), 'C27.made', m.name + ' array', where, 'the array of the new object is %s' % short(D0, 80)):
            ctx.check(kw(D0, 'shape', 0) is shape, 'C27.shape', m.name + ' shape', where, 'the array has the shape %s' % short(kw(D0, 'shape', 0), 60))
            ctx.check(same_type(kw(D0, 'dtype', 1), dtype), 'C27.shape', m.name + ' type', where, 'the array has the type %s' % short(kw(D0, 'dtype', 1), 60))
            b = kw(D0, 'buffer', 2)
            ctx.check(b is not None and b is mk('attr', base_of(S), 'buf'), 'C27.made', m.name + ' buffer', where, 'the array does not lie in the block of the object')
            off = kw(D0, 'offset', 3)
            ctx.check(off is None or off is const(0), 'C27.made', m.name + ' offset', where, 'the array begins at %s' % short(off, 40))
            st_ = kw(D0, 'strides', 4)
            ctx.check(st_ is None or st_ is NONE, 'C27.shape', m.name + ' strides', where, 'the new array has strides')
        ctx.check(c is sym('close'), 'C27.flag', m.name + ' flag', where, 'the close flag of the new array is %s' % short(c, 40))
        ws = list(written(p, D0))
        if content is None:
            for e, v, whole in ws:
                ctx.check(zero(v), 'C27.content', m.name + ' zero', e.where, 'an array created by shape is filled with %s' % short(v, 60))
        else:
            last = ws[-1] if ws else None
            ctx.check(last is not None and last[2] and last[1] is content, 'C27.content', m.name + ' content', where, 'an array created by copy does not get the contents of the other')
    a = m.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = dflt.get('close')
    ctx.check(getattr(d, 'value', None) is True, 'C27.flag', m.name + ' default', m.key, 'an array made by %s is not closed at exit by default' % m.name)
    if not n:
        raise AnalysisBroken('%s never returns' % m.key)


def zero(v):
    if v is not None and v.op == 'call' and v.args[1] is None and (v.args[0] in ('numpy.zeros', 'numpy.zeros_like') or v.args[0] in ('bytes', 'bytearray') and len(v.args[2]) == 1 and not v.args[3]
                                                                  and not (is_const(v.args[2][0]) and not isinstance(cval(v.args[2][0]), int))):
        return True
    return v is not None and (is_const(v) and cval(v) in (0, 0.0, False) and cval(v) is not None)


def written(p, D0):
    """(event, value, whole array?) of everything stored in the array."""
    for e in flat(p.trace):
        if e.kind == 'setitem' and base_of(e.recv) is D0:
            k = e.args[0] if e.args else None
            yield e, e.value, k is not None and (k is ext('Ellipsis') or show(k) in ('Ellipsis', 'slice(None, None, None)', ':'))
        elif e.kind == 'call' and e.name == '.fill' and base_of(e.recv) is D0:
            yield e, e.args[0] if e.args else None, True
        elif e.kind == 'call' and e.name == 'numpy.copyto' and e.args and base_of(e.args[0]) is D0:
            yield e, e.args[1], not dict(e.kwargs).get('where')
        elif e.kind == 'setitem' and e.recv is not None and e.recv.op == 'attr' and e.recv.args[1] == 'buf':
            yield e, e.value, False


def sent(ctx, ci):
    red = ctx.p.find_method(ci.key, '__reduce__') or ctx.p.find_method(ci.key, '__reduce_ex__')
    if red is None:
        raise AnalysisBroken('how a shared array is pickled is not understood')
    ip = ctx.interp(RP(record=lambda e: e.kind == 'setitem' or e.kind == 'call' and e.name in ('.fill', 'numpy.copyto', SHM), opaque=local, merge=False, raising=False))
    me = ip.self_obj(ci.key)
    mem, dat = mk('attr', me, 'shmem'), mk('attr', me, 'data')
    n = 0
    for p in ip.run(red, self_val=me):
        if p.kind != 'return':
            continue
        v = ip.freeze(p.st, p.val)
        if not (v.op == 'tuple' and len(v.args) == 2 and v.args[1].op == 'tuple'):
            raise AnalysisBroken('reduce gives %s' % short(v, 100))
        fr = ip.new_frame(red, None)
        outs = ip.call(p.st.fork(), v.args[0], list(v.args[1].args), [], red.node, fr)
        for st, o in outs:
            n += 1
            S, D, c = (st.heap.get((o, 'a', k)) for k in FIELDS)
            if not ctx.check(ip.type_of(st, o) == ci.key and None not in (S, D, c), 'C27.sent', 'result', red.key, 'a sent array arrives as %s' % short(o, 60)):
                continue
            ctx.check(S is mem, 'C27.sent', 'block', red.key, 'a sent array arrives with the block %s' % short(S, 80))
            ctx.check(c is FALSE or c is NONE, 'C27.owner', 'attached', red.key, 'a sent array arrives with the close flag %s: its block is freed by a process that only attached' % short(c, 40))
            if ctx.check(is_ndarray(D), 'C27.sent', 'array', red.key, 'the array of a sent object is %s' % short(D, 80)):
                ctx.check(kw(D, 'buffer', 2) is mk('attr', mem, 'buf'), 'C27.sent', 'buffer', red.key, 'the array that arrives does not lie in the block of the sender')
                for k, i in (('shape', 0), ('dtype', 1), ('strides', 4)):
                    x = kw(D, k, i)
                    ctx.check(x is mk('attr', dat, k), 'C27.sent', k, red.key, 'a sent array arrives with the %s %s' % (k, short(x, 60)))
            new = [e for e in flat(st.trace if hasattr(st, 'trace') else ()) if e.kind in ('setitem', 'call')]
            for e in new:
                ctx.fail('C27.sent', 'written', e.where, 'the arriving side writes the array or creates a block')
    if not n:
        raise AnalysisBroken('what reduce gives cannot be applied')


def registered(ctx, ci):
    m = ctx.p.find_method(ci.key, '__init__')
    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'write', 'setitem'), opaque=local, merge=False, raising=False))
    me = ip.self_obj(ci.key)
    lists = set()
    n = 0
    for p in ip.run(m, self_val=me):
        if p.kind != 'return':
            continue
        n += 1
        into = set()
        for e in flat(p.trace):
            if e.kind == 'call' and e.name in ('.append', '.add', '.insert') and e.args and e.args[-1] is me and e.recv.op == 'attr' and e.recv.args[0].op == 'mod':
                into.add(e.recv)
            elif e.kind == 'setitem' and e.recv.op == 'attr' and e.recv.args[0].op == 'mod' and e.value is me:
                into.add(e.recv)
            elif e.kind == 'write' and e.recv.op == 'mod' and e.value is not None and any(x is me for x in subterms(e.value)):
                into.add(mk('attr', e.recv, e.name))
        if ctx.check(bool(into), 'C27.list', 'registered', m.key, 'a shared array does not enter the list of those to be closed'):
            lists |= into
        for k in FIELDS:
            ctx.check(p.st.heap.get((me, 'a', k)) is sym(k), 'C27.made', 'field ' + k, m.key, 'the %s of a shared array is %s' % (k, short(p.st.heap.get((me, 'a', k)), 60)))
    if not n:
        raise AnalysisBroken('a shared array cannot be made')
    return lists


def resolves(t):
    """(list the elements come from, conditions under which they do)"""
    conds = []
    while True:
        if t.op in ('tuple', 'list') and len(t.args) == 1 and t.args[0].op == 'star':
            t = t.args[0].args[0]
        elif t.op == 'call' and t.args[0] in ('list', 'tuple', 'reversed', 'set', '.copy', '.values', 'iter'):
            t = t.args[2][0] if t.args[2] else t.args[1]
        elif t.op in ('upd', 'at', 'mu', 'items', 'values'):
            t = t.args[0]
        elif t.op == 'comp' and t.args[0].op == 'elem':
            for x in t.args[2:]:
                conds.append(x)
            t = t.args[1]
        else:
            break
    return t, conds


def flag_of(facts, x):
    a = mk('attr', x, 'close')
    for c in (a, mk('truth', a)):
        if isinstance(facts.get(c), bool):
            return facts[c]
    for c, b in facts.items():
        if c.op in ('same', 'eq') and a in c.args and isinstance(b, bool):
            if TRUE in c.args:
                return b
            if FALSE in c.args:
                return not b
    return None


def closing(ctx, lists):
    mod = ctx.p.modules['teleprox.shmem']
    m = mod.funcs.get('close_all')
    if m is None:
        raise AnalysisBroken('close_all is not there')
    ci = cls(ctx, 'SharedNDArray')

    def method(ip, st, fv, args, kwargs, node, fr):
        # the elements of the list are shared arrays
        if fv.op == 'attr' and fv.args[0].op == 'elem' and fv.args[1] in ci.methods:
            f = ci.methods[fv.args[1]]
            return ip.call(st, mk('func', f.key, None), ([] if f.is_static else [fv.args[0]]) + list(args), kwargs, node, fr)

    ip = ctx.interp(RP(record=lambda e: e.kind in ('call', 'caught', 'break', 'write'), opaque=local, hook=method, merge=False, want_loops=True, split=lambda a: True,
                       nofail=('.close',), fail={'.unlink': ('FileNotFoundError',)}))
    n = 0
    for p in ip.run(m):
        if p.kind == 'raise':
            ctx.fail('C27.all', 'gone', m.key, 'closing all arrays ends when a block is gone already')
            continue
        if p.kind != 'return':
            ctx.fail('C27.all', p.kind, m.key, 'closing all arrays does not end')
            continue
        for e in flat(p.trace):
            if e.kind == 'break':
                ctx.fail('C27.all', 'break', e.where, 'closing all arrays ends before the last one')
        seen = {'close': False, 'unlink': False}
        for l in p.trace:
            if l.kind != 'loop':
                continue
            l0, conds = resolves(l.recv) if l.recv is not None else (None, [])
            if l0 not in lists:
                continue
            for it in l.extra:
                evs = list(flat(it.trace))
                x = None
                for e in evs:
                    if e.kind == 'call' and e.name in ('.close', '.unlink'):
                        if e.recv.op == 'attr' and e.recv.args[1] == 'shmem' and e.recv.args[0].op == 'elem':
                            x = e.recv.args[0]
                if x is None:
                    x = mk('elem', l0)
                flag = flag_of(it.facts, x)
                if flag is None and conds:
                    flag = filter_flag(conds)
                closed = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == '.close' and e.recv is mk('attr', x, 'shmem')]
                gone = [i for i, e in enumerate(evs) if e.kind == 'caught' and 'FileNotFound' in str(e.name) or e.kind == 'call' and e.name == '.unlink' and e.recv is mk('attr', x, 'shmem')]
                if flag is None:
                    if closed or gone:
                        ctx.fail('C27.owner', 'unlink', evs[(closed or gone)[0]].where, 'the block of an array is freed without its close flag having been looked at')
                    continue
                n += 1
                if flag:
                    seen['close'] |= bool(closed)
                    seen['unlink'] |= bool(gone)
                else:
                    ctx.check(not gone, 'C27.owner', 'attached freed', evs[gone[0]].where if gone else m.key, 'the block of an array without the close flag is unlinked')
                    ctx.check(not closed, 'C27.owner', 'attached closed', evs[closed[0]].where if closed else m.key, 'the block of an array without the close flag is closed')
        loops = [l for l in p.trace if l.kind == 'loop']
        for what in ('close', 'unlink'):
            bad = owned_without(loops, lists, what)
            ctx.check(seen[what] and not bad, 'C27.all', what, m.key, 'closing all arrays does not %s every block that was made with the close flag' % what)
        # nothing leaves the list before it was looked at
        cut = [i for i, e in enumerate(p.trace) if e.kind == 'write' and mk('attr', e.recv, e.name) in lists or e.kind == 'call' and e.name == '.clear' and e.recv in lists]
        first = [i for i, e in enumerate(p.trace) if e.kind == 'loop']
        if cut and first:
            ctx.check(cut[0] > first[-1] or copied(p, lists, cut[0]), 'C27.all', 'emptied', p.trace[cut[0]].where, 'the list is emptied before its blocks are closed')
    if not n:
        raise AnalysisBroken('close_all goes through no array')
    return m


def copied(p, lists, i):
    return all(l.recv not in lists for l in p.trace[i:] if l.kind == 'loop') or p.trace[i].kind == 'write'


def owned_without(loops, lists, what):
    """Is there a turn for an array with the flag that leaves the call out, when some loop makes it?"""
    for l in loops:
        l0, conds = resolves(l.recv) if l.recv is not None else (None, [])
        if l0 not in lists:
            continue
        does = lacks = False
        for it in l.extra:
            evs = list(flat(it.trace))
            x = next((e.recv.args[0] for e in evs if e.kind == 'call' and e.name in ('.close', '.unlink') and e.recv.op == 'attr' and e.recv.args[0].op == 'elem'), mk('elem', l0))
            flag = flag_of(it.facts, x)
            if flag is None and conds:
                flag = filter_flag(conds)
            if flag is False:
                continue
            has = any(e.kind == 'call' and e.name == '.' + what or what == 'unlink' and e.kind == 'caught' and 'FileNotFound' in str(e.name) for e in evs)
            does |= has
            lacks |= not has
        if does and not lacks:
            return False
    return True


def filter_flag(conds):
    """The close flag of the elements a filter lets through (None: not decided)."""
    for c in conds:
        if not hasattr(c, 'op'):
            continue
        if c.op == 'filter':
            pos, neg = c.args[0], c.args[1]
            for y in pos if isinstance(pos, tuple) else (pos,):
                if hasattr(y, 'op') and (y.op == 'attr' and y.args[1] == 'close' or y.op == 'truth' and y.args[0].op == 'attr' and y.args[0].args[1] == 'close'):
                    return True
            for y in neg if isinstance(neg, tuple) else (neg,):
                if hasattr(y, 'op') and (y.op == 'attr' and y.args[1] == 'close' or y.op == 'truth' and y.args[0].op == 'attr' and y.args[0].args[1] == 'close'):
                    return False
    return None


def at_exit(ctx, m, lists):
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call' and e.name in ('atexit.register', 'atexit.unregister') or e.kind == 'write', opaque=lambda f: False, merge=False))
    n = 0
    for p in ip.run_module('teleprox.shmem'):
        if p.kind != 'return':
            continue
        n += 1
        reg = [e for e in flat(p.trace) if e.kind == 'call' and e.name == 'atexit.register']
        ok = [e for e in reg if e.args and (e.args[0].op == 'func' and e.args[0].args[0] == m.key)]
        ctx.check(bool(ok), 'C27.exit', 'registered', 'teleprox.shmem', 'closing all arrays is not registered to run at exit')
        ctx.check(not any(e.name == 'atexit.unregister' for e in flat(p.trace) if e.kind == 'call'), 'C27.exit', 'kept', 'teleprox.shmem', 'the registration is taken back')
        for l in lists:
            w = [e.value for e in flat(p.trace) if e.kind == 'write' and e.recv is l.args[0] and e.name == l.args[1]]
            v = w[-1] if w else None
            weak = v is not None and v.op == 'call' and 'Weak' in str(v.args[0]) or v is None
            ctx.check(not weak, 'C27.list', 'strong', 'teleprox.shmem', 'the list of arrays does not keep them: %s' % short(v, 60))
    if not n:
        raise AnalysisBroken('the module cannot be imported')


def dropped(ctx, ci):
    """A shared array that is no longer used does not take the memory away from the others."""
    m = ctx.p.find_method(ci.key, '__del__')
    if m is None:
        return
    ip = ctx.interp(RP(record=lambda e: e.kind == 'call', opaque=lambda f: False, raising=False, merge=False))
    me = ip.self_obj(ci.key)
    for p in ip.run(m, self_val=me):
        own = any(b is True and (c.args[0] if c.op == 'truth' else c) is mk('attr', me, 'close') for c, b in p.facts.items())
        for e in flat(p.trace):
            if e.name == '.unlink':
                ctx.check(own, 'C27.flag', '__del__', e.where, 'memory that is merely attached is unlinked when the array is dropped')


def check(ctx):
    ci = cls(ctx, 'SharedNDArray')
    for name, args in (('zeros', (sym('shape'), sym('dtype'), None)), ('copy', (mk('attr', sym('arr'), 'shape'), mk('attr', sym('arr'), 'dtype'), sym('arr')))):
        m = ctx.p.find_method(ci.key, name)
        if m is None:
            raise AnalysisBroken('SharedNDArray.%s is not there' % name)
        made(ctx, ci, m, *args)
    lists = registered(ctx, ci)
    sent(ctx, ci)
    m = closing(ctx, lists)
    at_exit(ctx, m, lists)
    dropped(ctx, ci)
    ctx.require('C27.made', 6)
    ctx.require('C27.all', 1)
