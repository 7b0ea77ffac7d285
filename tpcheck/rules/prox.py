"""Proxy side analyses shared by C08, C09, C10: a proxy with symbolic state, as its constructor leaves it."""
from .base import *
from .c06 import state_fields, strip

OPTIONS = ('sync', 'timeout', 'return_type', 'defer_getattr', 'no_proxy_types', 'auto_delete', 'safe_print')


def option_names(ctx, pc):
    """Option names of a new proxy."""
    F = state_fields(ctx)
    init = ctx.p.find_method(pc.key, '__init__')
    ip = ctx.interp(RP(raising=False, opaque=lambda f: f.module.name != 'teleprox.proxy'))
    so = mk('obj', pc.key, 'probe')
    for p in ip.run(init, self_val=so):
        d = options_of(ip, p.st, so)
        if p.kind == 'return' and d is not None:
            if d.op == 'dict':
                ks = [cval(k) for k, v in d.args if is_const(k)]
                if ks:
                    return F, ks
    raise AnalysisBroken('the options of a new proxy are not understood')


def options_of(ip, st, so):
    """The option dict of a proxy: the field that holds a dict with the key 'timeout'."""
    best = None
    for k, v in list(st.heap.items()):
        if k[0] is so and k[1] == 'a' and v is not None and v.op in ('alloc', 'dict', 'upd', 'phi'):
            d = ip.freeze(st, v)
            if any(x.op == 'dict' and any(is_const(y) and cval(y) == 'timeout' for y, _ in x.args) for x in subterms(d)) or \
                    (d.op == 'upd' and any(is_const(y) and cval(y) == 'timeout' for y, _ in d.args[1])):
                best = d
    return best


def made(ctx, pc, names=OPTIONS, opts=None, attributes=None, so=None):
    """(self, state after construction, {option: value}, fields) of a proxy made with symbolic state."""
    F, have = option_names(ctx, pc)
    init = ctx.p.find_method(pc.key, '__init__')
    so = so or mk('obj', pc.key, 'sym')
    vals = {k: sym('option ' + k) for k in have}
    vals.update(opts or {})
    ip = ctx.interp(RP(raising=False, opaque=lambda f: f.module.name != 'teleprox.proxy'))
    a = init.node.args
    ps = [x.arg for x in a.args][1:]
    args = {n: sym('proxy ' + n) for n in ps}
    if 'attributes' in args and attributes is not None:
        args['attributes'] = attributes
    kw = mk('dict', *[(const(k), v) for k, v in vals.items()])
    if a.kwarg:
        args[a.kwarg.arg] = kw
    out = []
    for p in ip.run(init, self_val=so, args=args):
        if p.kind == 'return':
            out.append((ip, p.st))
    if len(out) != 1:
        raise AnalysisBroken('constructing a proxy has %d outcomes' % len(out))
    st = out[0][1]
    fields = {w: ip.freeze(st, st.heap[(so, 'a', f)]) for w, f in F.items() if (so, 'a', f) in st.heap}
    return so, st, vals, F, fields


def client_hook(ctx):
    """RPCClient.get_client(addr) gives a client known by its address."""
    ck = ctx.p.find_class('RPCClient')

    def hook(ip, st, fv, args, kwargs, node, fr):
        f = fv.args[0] if fv.op == 'bound' else fv
        if f.op == 'func' and f.args[0].endswith(':RPCClient.get_client'):
            a = args[0] if args else dict(kwargs).get('address')
            if a is not None:
                return [(st, mk('obj', ck, ip.freeze(st, a)))]
        return None
    return hook


def bound_args(ctx, ev, clsname):
    """{parameter: value} of a recorded method call '@Class.name', receiver excluded."""
    name = ev.name.split('.')[-1]
    fi = ctx.p.find_method(ctx.p.find_class(clsname), name)
    if fi is None:
        return None
    ps = [x.arg for x in fi.node.args.args][1:]
    r = dict(zip(ps, ev.args))
    for k, v in ev.kwargs:
        r[k] = v
    return r


def boundary(f):
    return f.module.name != 'teleprox.proxy'


def roots(t):
    """A value without phi alternatives and text encodings."""
    r = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x is None:
            continue
        if x.op == 'phi':
            todo.extend(x.args)
        elif x.op == 'call' and x.args[0] in ('.encode', '.decode'):
            todo.append(x.args[1])
        else:
            y = strip(x)
            if y is x:
                r.add(x)
            else:
                todo.append(y)
    return r
