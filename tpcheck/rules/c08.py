import ast
from .prox import *
from . import c09, c13

EXPLANATION = """
Each special method of the proxy class (also when produced by a factory or a loop) is interpreted on a proxy with
symbolic state and the number of operands its operator has: every path must issue exactly one call request to the client
of the proxy's server, whose target is the proxy's own object with that very method's name appended to the attribute
path, whose positional arguments are exactly the operands in order, without keyword arguments and under the proxy's own
call options, and must return what that request returns.  Local answers are allowed for == only (C07).  For every
operator the plain, reflected and in-place forms must all be defined.  The server must look the pending names up on the
registered object, in order, and invoke what it finds once with exactly the transmitted arguments.
"""
ASSUMPTIONS = ['the request arrives as it was sent (C11, C31)']

BINARY = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'and', 'or', 'xor']
OPTIONAL = ['div', 'matmul']
COMPARE = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
OTHER = {'getitem': 1, 'setitem': 2, 'len': 0, 'setattr': 2}
MAYBE = {'delitem': 1, 'contains': 1, 'iter': 0, 'neg': 0, 'pos': 0, 'abs': 0, 'invert': 0, 'bool': 0, 'int': 0, 'float': 0, 'index': 0,
         'divmod': 1, 'rdivmod': 1, 'delattr': 1, 'round': 0, 'next': 0, 'reversed': 0, 'enter': 0, 'complex': 0}


def check(ctx):
    pc = cls(ctx, 'ObjectProxy')
    table = {}
    for op in BINARY + OPTIONAL:
        forms = ['__%s__' % op, '__r%s__' % op, '__i%s__' % op]
        have = [f for f in forms if ctx.p.find_method(pc.key, f)]
        if op in BINARY or have:
            for f in forms:
                ctx.check(f in have, 'C08.complete', f, pc.key, 'the operator is supported in some forms, but %s is missing' % f)
        for f in have:
            table[f] = [1]
    if '__pow__' in table:
        table['__pow__'] = [1, 2]
    for op in COMPARE:
        f = '__%s__' % op
        if ctx.check(ctx.p.find_method(pc.key, f) is not None, 'C08.complete', f, pc.key, 'a proxy does not forward %s' % f):
            table[f] = [1]
    for op, n in OTHER.items():
        f = '__%s__' % op
        if ctx.check(ctx.p.find_method(pc.key, f) is not None, 'C08.complete', f, pc.key, 'a proxy does not forward %s' % f):
            table[f] = [n]
    for op, n in MAYBE.items():
        f = '__%s__' % op
        if ctx.p.find_method(pc.key, f):
            table[f] = [n]
    for name, ns in sorted(table.items()):
        for n in ns:
            method(ctx, pc, name, n)
    # what the server does with the request: the target is the method looked up on the object, invoked as asked
    c09.resolve(ctx, pc, 'C08.target')
    c13.server_side(ctx, 'C08')
    ctx.require('C08.operands', 40)


def method(ctx, pc, name, n):
    so, st, vals, F, fields = made(ctx, pc)
    fi = ctx.p.find_method(pc.key, name)
    if fi.is_static or fi.is_class:
        ctx.fail('C08.method', name, fi.key, '%s is not an ordinary method' % name)
        return
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args][1:]
    need = len(ps) - len(a.defaults)
    operands = [sym('operand %d' % i) for i in range(n)]
    if need > n or (len(ps) < n and not a.vararg):
        ctx.fail('C08.operands', '%s/%d' % (name, n), fi.key, '%s does not accept %d operands' % (name, n))
        return
    args = dict(zip(ps, operands))
    defaults = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip([x.arg for x in a.kwonlyargs], a.kw_defaults))
    for x, d in defaults:
        if x not in args and isinstance(d, ast.Constant):
            args[x] = const(d.value)
    if a.vararg:
        args[a.vararg.arg] = mk('tuple', *operands[len(ps):])
    if a.kwarg:
        args[a.kwarg.arg] = mk('dict')
    ip = ctx.interp(RP(names={'@RPCClient.call_obj'}, record=lambda e: e.kind == 'call' and e.name.startswith('@RPCClient.'),
                       raising=False, opaque=boundary, hook=client_hook(ctx)))
    c = '%s/%d' % (name, n)
    total = 0
    paths = ip.run(fi, self_val=so, args=args, st=st)
    for p in paths:
        total += 1
        where = fi.key
        if p.kind != 'return':
            ctx.fail('C08.operands', c, where, '%s raises %s instead of asking the object' % (name, short(p.val)))
            continue
        reqs = [e for e in flat(p.trace) if e.kind == 'call' and e.name.startswith('@RPCClient.')]
        if name in ('__eq__',) and not reqs and p.val is TRUE:
            continue
        if not ctx.check(len(reqs) == 1 and reqs[0].name == '@RPCClient.call_obj', 'C08.one-call', c, where,
                         '%d requests (%s) are made for one operation' % (len(reqs), ', '.join(e.name for e in reqs))):
            continue
        e = reqs[0]
        b = bound_args(ctx, e, 'RPCClient')
        o = b.get('obj')
        h = lambda w: ip.freeze(p.st, p.st.heap[(o, 'a', F[w])]) if (o, 'a', F[w]) in p.st.heap else None
        same = o is not None and all(h(w) is not None and roots(h(w)) == roots(fields[w])
                                     for w in ('obj_id', 'rpc_addr'))
        ctx.check(same and e.recv is not None and e.recv.op == 'obj' and
                  roots(e.recv.args[1]) == roots(fields['rpc_addr']), 'C08.target', c, e.where,
                  'the request is not made to the object of the proxy')
        path = h('attributes') if o is not None else None
        ctx.check(path is not None and ends_with(path, fields['attributes'], name), 'C08.method-name', c, e.where,
                  'the remote attribute looked up is %s instead of %s' % (short(path), name))
        got = b.get('args')
        want = mk('tuple', *operands)
        ctx.check(got is not None and (got is want or got is mk('list', *operands)), 'C08.operands', c, e.where,
                  'the operands sent are %s' % short(got))
        kw = b.get('kwargs')
        ctx.check(kw is None or kw is NONE or (kw.op == 'dict' and not kw.args), 'C08.operands', c + ' keywords', e.where, 'keyword arguments are sent: %s' % short(kw))
        for k in ('sync', 'return_type', 'timeout'):
            ctx.check(b.get(k) is vals.get(k), 'C08.options', '%s: %s' % (c, k), e.where, '%s of the operation is %s' % (k, short(b.get(k))))
        if name not in ('__setitem__', '__setattr__', '__delitem__', '__delattr__'):
            ctx.check(p.val is e.value, 'C08.result', c, fi.key, 'the operation gives %s instead of what the object returned' % short(p.val))
    if not total:
        raise AnalysisBroken('no path through ' + name)


def ends_with(path, base, name):
    if path.op not in ('tuple', 'list') or len(path.args) < 2 or path.args[-1] is not const(name):
        return False
    return len(path.args) == 2 and path.args[0].op == 'star' and path.args[0].args[0] is base or \
        base.op in ('tuple', 'list') and path.args[:-1] == base.args
