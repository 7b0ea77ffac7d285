import ast
from .base import *

EXPLANATION = """
The client's constructor is interpreted with the functions that build the name inlined.  On every path that connects a socket,
the identity given to ZeroMQ before connecting must contain a random or universally unique number drawn during this very
construction, of at least 64 bits, and every slice taken from the text must provably keep that number whole, whatever the
lengths of the other parts.  No other place may set the identity of a socket.
"""
ASSUMPTIONS = ['numbers drawn by uuid.uuid4, uuid.uuid1, os.urandom and secrets do not repeat']
# creation of a unique number: name -> kind
UNIQUE = {'uuid.uuid4': 'uuid', 'uuid.uuid1': 'uuid', 'os.urandom': 'bytes', 'secrets.token_hex': 'hex', 'secrets.token_bytes': 'bytes', 'secrets.token_urlsafe': 'hex'}
SAME = ('.encode', '.decode', '.lower', '.upper', '.strip', 'str', 'bytes')
SET = ('.setsockopt', '.set', '.setsockopt_string', '.set_string')
ATTRS = ('identity', 'IDENTITY', 'routing_id', 'ROUTING_ID')


class U:
    """A text containing a unique number: bits of it, bytes before and after it (None: unknown) and its own length."""
    def __init__(self, bits, before, length, after):
        self.bits, self.before, self.length, self.after = bits, before, length, after


def nbytes(t):
    """Length in bytes of a constant text, None if unknown."""
    if is_const(t):
        v = cval(t)
        if isinstance(v, bytes):
            return len(v)
        return len(str(v).encode())
    return None


def call_name(t):
    return t.args[0] if t.op == 'call' else None


def unique(t):
    if t is None or is_const(t):
        return None
    if t.op == 'phi':
        us = [unique(a) for a in t.args]
        if any(u is None for u in us):
            return None
        return min(us, key=lambda u: u.bits)
    n = call_name(t)
    if n in UNIQUE:
        k = UNIQUE[n]
        if k == 'uuid':
            return U(122, 0, 36, 0)
        a = t.args[2][0] if t.args[2] else None
        size = cval(a) if a is not None and is_const(a) and isinstance(cval(a), int) else (32 if a is None else 0)
        return U(8 * size, 0, size * (2 if k == 'hex' else 1), 0)
    if t.op == 'attr' and t.args[1] in ('hex', 'bytes', 'int', 'urn'):
        u = unique(t.args[0])
        if u is not None and call_name(t.args[0]) in UNIQUE:
            return U(u.bits, 0, {'hex': 32, 'bytes': 16, 'int': 39, 'urn': 45}[t.args[1]], 0)
        return None
    if n == '.hex' and t.args[1] is not None:
        u = unique(t.args[1])
        return u and U(u.bits, u.before and 2 * u.before, 2 * u.length, u.after and 2 * u.after)
    if n == '.replace' and t.args[1] is not None:
        u = unique(t.args[1])
        if u is not None and all(is_const(a) for a in t.args[2]) and len(t.args[2]) == 2 and cval(t.args[2][0]) in ('-', b'-', ':'):
            return U(u.bits, u.before, u.length, u.after)
        return None
    if n in SAME:
        x = t.args[1] if n.startswith('.') else (t.args[2][0] if t.args[2] else None)
        u = unique(x)
        return u
    if t.op == 'str' or t.op == 'conv':
        return unique(t.args[0])
    if t.op in ('fstr', 'concat') or t.op == 'binop' and t.args[0] in ('+', 'Add'):
        parts = [a for a in (t.args if t.op != 'binop' else t.args[1:]) if hasattr(a, 'op')]
        best = None
        for i, p in enumerate(parts):
            u = unique(p)
            if u is None:
                continue
            b = total(parts[:i], u.before)
            a = total(parts[i + 1:], u.after)
            c = U(u.bits, b, u.length, a)
            if best is None or (c.after is not None and best.after is None):
                best = c
        return best
    if n == '.join' and t.args[1] is not None and len(t.args[2]) == 1 and t.args[2][0].op in ('list', 'tuple'):
        sep = nbytes(t.args[1])
        parts = t.args[2][0].args
        for i, p in enumerate(parts):
            u = unique(p)
            if u is not None:
                b, a = total(parts[:i], u.before), total(parts[i + 1:], u.after)
                return U(u.bits, None if b is None or sep is None else b + sep * i, u.length, None if a is None or sep is None else a + sep * (len(parts) - 1 - i))
        return None
    if t.op in ('item', 'slice', 'sub') and len(t.args) == 2 and getattr(t.args[1], 'op', None) == 'slice':
        u = unique(t.args[0])
        return u and cut(u, t.args[1])
    return None


def total(parts, n):
    for p in parts:
        l = nbytes(p)
        if l is None or n is None:
            return None
        n += l
    return n


def cut(u, s):
    lo, hi, step = s.args
    if not all(is_const(x) for x in (lo, hi, step)) or cval(step) not in (None, 1):
        return None
    lo, hi = cval(lo), cval(hi)
    bits, before, length, after = u.bits, u.before, u.length, u.after
    per = bits / max(length, 1)
    if isinstance(lo, int) and lo < 0:
        k = -lo
        if after is None or after + length > k:
            if after is not None and k > after:
                length, bits = k - after, (k - after) * per
            else:
                return None
        before = None
    elif isinstance(lo, int) and lo > 0:
        if before is None or before < lo:
            if before is not None and before == 0 and lo < length:
                bits, length = (length - lo) * per, length - lo
            else:
                return None
        else:
            before -= lo
    if isinstance(hi, int) and hi < 0:
        k = -hi
        if after is None or after < k:
            return None
        after -= k
    elif isinstance(hi, int):
        if before is None:
            return None
        if before + length > hi:
            keep = hi - before
            if keep <= 0:
                return None
            bits, length = keep * per, keep
        after = None
    return U(bits, before, length, after)


def is_identity(e):
    if e.kind == 'write' and e.name in ATTRS:
        return e.value
    if e.kind == 'call' and e.name in SET and len(e.args) >= 2 and e.args[0].op == 'ext' and e.args[0].args[0].split('.')[-1] in ('IDENTITY', 'ROUTING_ID'):
        return e.args[1]
    return None


def check(ctx):
    ci = cls(ctx, 'RPCClient')
    so = mk('obj', ci.key, 'sym')
    init = ctx.p.find_method(ci.key, '__init__')
    ip = ctx.interp(RP(record=lambda e: is_identity(e) is not None or e.kind == 'call' and e.name in ('.socket', 'zmq.Socket', '.connect'), raising=False,
                       opaque=lambda f: f.name in ('ensure_connection', 'check_address', 'check_tcp_port', 'get_server', 'run_lazy') or f.cls is not None and f.cls.name == 'RPCServer',
                       max_states=1500))
    sites = set()
    for p in ip.run(init, self_val=so):
        made, ident = set(), {}
        for e in flat(p.trace):
            if e.kind == 'call' and e.name in ('.socket', 'zmq.Socket'):
                made.add(e.value)
                continue
            v = is_identity(e)
            if v is not None:
                ident[e.recv] = (v, e)
                sites.add(e.where)
                continue
            if e.kind == 'call' and e.name == '.connect' and e.recv in made:
                got = ident.get(e.recv)
                if got is None:
                    continue        # ZeroMQ then chooses a unique identity itself
                u = unique(got[0])
                ctx.check(u is not None and u.bits >= 64, 'C17.unique', 'identity in %s' % got[1].fn, got[1].where,
                          'the identity %s need not contain a whole unique number drawn for this client' % short(got[0], 300))
                del ident[e.recv]
        if p.kind == 'return':
            for s, (v, e) in ident.items():
                ctx.fail('C17.order', 'identity in %s' % e.fn, e.where, 'the identity is set after the socket has been connected')
            ctx.check(bool(made), 'C17.socket', 'socket of a client', init.key, 'no socket is opened')
    others(ctx, sites)
    ctx.require('C17.socket', 1)


def others(ctx, sites):
    for m, mi in ctx.p.modules.items():
        if '.tests' in m:
            continue
        for n in ast.walk(mi.tree):
            hit = isinstance(n, ast.Attribute) and n.attr in ('IDENTITY', 'ROUTING_ID') or isinstance(n, ast.Attribute) and n.attr in ('identity', 'routing_id') and isinstance(n.ctx, ast.Store)
            if hit:
                ctx.check(any(s.split(':')[0] == m and abs(int(s.split(':')[1]) - n.lineno) <= 2 for s in sites), 'C17.sites', 'identity in %s' % m, '%s:%d' % (m, n.lineno),
                          'the identity of a socket is set outside the construction of a client')
