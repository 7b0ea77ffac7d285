"""Client side analyses shared by C03, C04, C13."""
from .base import *


def client(ctx):
    return cls(ctx, 'RPCClient')


def self_of(ci):
    return mk('obj', ci.key, 'sym')


def method(ctx, ci, name):
    fi = ctx.p.find_method(ci.key, name)
    if fi is None:
        raise AnalysisBroken('anchor vanished: %s.%s' % (ci.key, name))
    return fi


def opaque(fi):
    return fi.module.name != 'teleprox.client' or fi.name in ('process_until_future',)


def send_policy(**kw):
    kw.setdefault('names', set())
    return RP(names={'.send_multipart', '.send', '@RPCClient.process_until_future', '.add_done_callback', '.set_result',
                     '.set_exception'} | set(kw.pop('names')),
              kinds={'setitem', 'write', 'raise'} | set(kw.pop('kinds', ())), opaque=kw.pop('opaque', opaque),
              raises=kw.pop('raises', lambda ev, st: () if ev.name != '.dumps' else ('Exception*',)), **kw)


def request_frames(ev):
    """Frames handed to the client's socket by a send_multipart."""
    if ev.args and ev.args[0].op in ('list', 'tuple'):
        return list(ev.args[0].args)
    return None


def unencode(t):
    """x for str(x).encode(), x.encode(), '%d' % x ..."""
    if t.op == 'call' and t.args[0] == '.encode':
        t = t.args[1]
    elif t.op == 'call' and t.args[0] == 'bytes' and t.args[2]:
        t = t.args[2][0]
    elif is_const(t) and isinstance(cval(t), bytes):
        return const(cval(t).decode(errors='replace'))
    return t


def plain_number(t):
    """n for the decimal text of n."""
    t = unencode(t)
    if t.op == 'call' and t.args[0] in ('str', 'repr') and len(t.args[2]) == 1:
        return t.args[2][0]
    if t.op == 'fstr' and len(t.args) == 1:
        a = t.args[0]
        if a.op == 'fmt' and is_const(a.args[0]) and cval(a.args[0]) in ('d', '', 's'):
            return a.args[1]
        return a
    if is_const(t) and isinstance(cval(t), str):
        try:
            return const(int(cval(t)))
        except ValueError:
            return t
    return t


def sends(p):
    return [e for e in flat(p.trace) if e.kind == 'call' and e.name == '.send_multipart']
