"""Interned abstract values (k-limited access paths / provenance terms)."""


class Term:
    __slots__ = ('op', 'args', 'uid', 'depth')
    _table = {}

    def __repr__(self):
        return show(self)


def mk(op, *args):
    if op == 'item' and args[0].op == 'upd' and args[1].op == 'const' and all(k.op == 'const' for k, _ in args[0].args[1]):
        for k, v in args[0].args[1]:
            if k is args[1]:
                if v.op == 'deleted':
                    break
                return v
        else:
            return mk('item', args[0].args[0], args[1])
    key = (op, args)
    t = Term._table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.uid = len(Term._table)
        d = 0
        for a in _flat(args):
            if a.depth > d:
                d = a.depth
        t.depth = d + 1
        Term._table[key] = t
    return t


def _flat(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _flat(a)


def const(v):
    return mk('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == 'const'


def cval(t):
    """Python value of a constant term (or _NOCONST)."""
    if t.op == 'const':
        return t.args[1]
    return NOCONST


class _NC:
    def __repr__(self):
        return '<not constant>'

    def __bool__(self):
        return False


NOCONST = _NC()


def sym(name):
    return mk('sym', name)


def ext(name):
    return mk('ext', name)


def attr(base, name):
    return mk('attr', base, name)


def item(base, key):
    return mk('item', base, key)


def subterms(t):
    """All subterms of t (t included)."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        stack.extend(_flat(x.args))


def mentions(t, pred):
    if isinstance(pred, Term):
        return any(x is pred for x in subterms(t))
    return any(pred(x) for x in subterms(t))


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 7:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'const':
        return repr(a[1])
    if o == 'sym':
        return a[0]
    if o == 'ext':
        return a[0]
    if o == 'attr':
        return s(a[0]) + '.' + a[1]
    if o == 'item':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'cls':
        return a[0].split(':')[-1]
    if o == 'mod':
        return a[0]
    if o == 'obj':
        return '<%s>' % a[0].split(':')[-1]
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'call':
        name, recv, args, kwargs = a[0], a[1], a[2], a[3]
        base = (s(recv) if recv is not None else '') + name
        return base + '(' + ', '.join([s(x) for x in args] + ['%s=%s' % (k, s(v)) for k, v in kwargs]) + ')'
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'not':
        return 'not ' + s(a[0])
    if o == 'isnone':
        return s(a[0]) + ' is None'
    if o == 'truth':
        return s(a[0])
    if o == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if o == 'lt':
        return '%s < %s' % (s(a[0]), s(a[1]))
    if o == 'in':
        return '%s in %s' % (s(a[0]), s(a[1]))
    if o == 'isinst':
        return 'isinstance(%s, %s)' % (s(a[0]), s(a[1]))
    if o == 'exc':
        return '<%s>' % a[0]
    if o == 'alloc':
        return '<%s@%s>' % (a[0], a[1])
    if o == 'func':
        return '<function %s>' % a[0]
    if o == 'bound':
        return s(a[1]) + '.' + str(a[0].args[0]).split('.')[-1]
    if o == 'fstr':
        return 'f"' + ''.join(x.args[1] if x.op == 'const' and isinstance(x.args[1], str) else '{' + s(x) + '}' for x in a) + '"'
    if o == 'elem':
        return 'each(%s)' % s(a[0])
    if o == 'key':
        return 'eachkey(%s)' % s(a[0])
    if o == 'mu':
        return 'loopvar(%s)' % (a[1] if isinstance(a[1], str) else s(a[1]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
