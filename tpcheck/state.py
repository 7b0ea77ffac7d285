"""Abstract states, events and the (solver-free) fact logic."""
from .terms import (Term, mk, const, NONE, TRUE, FALSE, is_const, cval, NOCONST, subterms, show)

DELETED = mk('deleted')


class Event:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kwargs', 'value', 'site', 'locks', 'fn', 'raw',
                 'extra', '_h')

    def __init__(self, kind, name, recv=None, args=(), kwargs=(), value=None, site=None, locks=(),
                 fn=None, raw=(), extra=None):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = args
        self.kwargs = kwargs
        self.value = value
        self.site = site
        self.locks = locks
        self.fn = fn
        self.raw = raw
        self.extra = extra
        self._h = hash((kind, name, recv, args, kwargs, value, site, locks, extra))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (self is o or (isinstance(o, Event) and self._h == o._h and self.kind == o.kind and self.name == o.name
                and self.recv is o.recv and self.args == o.args and self.kwargs == o.kwargs
                and self.value is o.value and self.site == o.site and self.locks == o.locks
                and self.extra == o.extra))

    def kw(self, name, default=None):
        for k, v in self.kwargs:
            if k == name:
                return v
        return default

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        return self.kw(name, default) if name else default

    @property
    def where(self):
        return '%s:%s' % (self.site[0], self.site[1]) if self.site else '?'

    def __repr__(self):
        if self.kind == 'loop':
            return 'loop@%s{%s}' % (self.where, ' | '.join(
                '; '.join(repr(e) for e in it.trace) + ('' if it.kind == 'n' else ' ->' + it.kind) for it in self.extra))
        r = (show(self.recv) if self.recv is not None else '')
        a = ', '.join([show(x) for x in self.args] + ['%s=%s' % (k, show(v)) for k, v in self.kwargs])
        s = '%s %s%s(%s)' % (self.kind, r + ' ' if r else '', self.name, a)
        if self.value is not None and self.kind in ('write', 'setitem', 'read', 'return'):
            s += ' = ' + show(self.value)
        return s + '@' + self.where


class Iteration:
    __slots__ = ('kind', 'trace', 'facts', 'st', 'key')

    def __init__(self, kind, trace, facts, st=None, key=frozenset()):
        self.kind = kind
        self.trace = trace
        self.facts = facts
        self.st = st
        self.key = key

    def __eq__(self, o):
        return self.kind == o.kind and self.trace == o.trace and self.key == o.key

    def __hash__(self):
        return hash((self.kind, self.trace))


class State:
    __slots__ = ('env', 'heap', 'facts', 'trace', 'locks', 'excs', 'cnt', 'pend', 'ver', 'epoch')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.trace = ()
        self.locks = ()
        self.excs = ()
        self.cnt = {}
        self.pend = ()
        self.ver = None
        self.epoch = 0

    def fork(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.locks = self.locks
        s.excs = self.excs
        s.cnt = dict(self.cnt)
        s.pend = self.pend
        s.ver = self.ver
        s.epoch = self.epoch
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()),
                self.trace, self.locks, self.excs, self.pend, self.ver)

    def occ(self, site):
        n = self.cnt.get(site, 0)
        self.cnt[site] = n + 1
        return n


NEVER_NONE = {'alloc', 'obj', 'tuple', 'list', 'dict', 'set', 'cls', 'func', 'bound', 'mod', 'fstr', 'comp',
              'exc', 'partial', 'objdict', 'super', 'exctype', 'gen', 'isnone', 'truth', 'eq', 'lt', 'in', 'isinst',
              'not', 'upd', 'slice', 'same'}
BOOLEAN = {'isnone', 'truth', 'eq', 'lt', 'in', 'isinst', 'not', 'same'}
ALWAYS_TRUE = {'cls', 'func', 'bound', 'mod', 'exc', 'partial', 'exctype', 'gen', 'super', 'objdict'}

# pure builtin calls that never return None
NOTNONE_CALLS = {'len', 'str', 'repr', 'int', 'float', 'bool', 'bytes', 'id', 'type', 'hash', 'sorted', 'list',
                 'dict', 'set', 'tuple', 'min', 'max', 'sum', 'range', 'zip', 'enumerate', 'map', 'abs',
                 '.decode', '.encode', '.format', '.join', '.split', '.lstrip', '.rstrip', '.strip',
                 '.upper', '.lower', '.copy', '.startswith', '.endswith', '.isdigit', '.isoformat', '.keys',
                 '.values', '.items', '.hex', '.tobytes', '.tolist', 'open', 'logging.getLogger', '.socket',
                 'subprocess.Popen', 'threading.current_thread', 'time.time', 'time.perf_counter', 'vars',
                 'json.dumps', 'pickle.dumps', 'sys.exc_info', 'traceback.format_exception',
                 'traceback.format_stack', 'traceback.format_exc', 'set', 'frozenset', 'builtins.__import__',
                 'os.getpid', 'socket.gethostname', 'uuid.uuid4', '.recv_multipart', '.recv', '.recv_json'}


def looks_like_class(name):
    last = name.split('.')[-1]
    return last[:1].isupper() and not last.isupper()


def subst(st, t):
    f = st.facts
    for _ in range(6):
        k = f.get(mk('=', t))
        if k is None:
            return t
        t = k
    return t


def seq_content(st, t):
    """(items, kind) of a sequence with known content (items may include ('star', x)) or None."""
    if t.op == 'alloc' and t.args[0] in ('list', 'set'):
        c = st.heap.get((t, 'seq', None))
        return None if c is None else c.args
    if t.op in ('tuple', 'list', 'set'):
        return t.args
    if t.op == 'const' and isinstance(t.args[1], tuple):
        return tuple(const(x) for x in t.args[1])
    return None


def map_content(st, t):
    """Pairs of a dict with known content ((k, v) with k = starstar for an unknown part) or None."""
    if t.op == 'alloc' and t.args[0] == 'dict':
        c = st.heap.get((t, 'map', None))
        return None if c is None else c.args
    if t.op == 'dict':
        return t.args
    return None


STARSTAR = mk('starstar')


def is_star(t):
    return t.op == 'star'


# ---- linear normal form ------------------------------------------------------------------
def linear(t, sign=1, acc=None):
    """(coefficients {term: number}, constant)"""
    if acc is None:
        acc = [{}, 0]
    if t.op == 'const' and isinstance(t.args[1], (int, float)) and not isinstance(t.args[1], bool):
        acc[1] += sign * t.args[1]
    elif t.op == 'bin' and t.args[0] == '+':
        linear(t.args[1], sign, acc)
        linear(t.args[2], sign, acc)
    elif t.op == 'bin' and t.args[0] == '-':
        linear(t.args[1], sign, acc)
        linear(t.args[2], -sign, acc)
    elif t.op == 'un' and t.args[0] == '-':
        linear(t.args[1], -sign, acc)
    else:
        acc[0][t] = acc[0].get(t, 0) + sign
    return acc


def lin_lt(a, b):
    """Canonical atom for a < b: ('lt0', ((term, coeff)...), const) meaning sum + const < 0,
    returned as (Term, polarity) or a Python bool when decidable."""
    acc = linear(a)
    linear(b, -1, acc)
    coef = {t: c for t, c in acc[0].items() if c != 0}
    if not coef:
        return acc[1] < 0
    items = tuple(sorted(coef.items(), key=lambda x: x[0].uid))
    return mk('lt', items, acc[1])


def lt_parts(atom):
    """For an 'lt' atom: list of (term, coeff), const."""
    return list(atom.args[0]), atom.args[1]


class Logic:
    """Deciding and assuming atomic conditions against the facts of a state."""

    def __init__(self, interp):
        self.ip = interp

    # canonical truth atom for a value
    def decide(self, st, c):
        """True / False / None (unknown) for a condition term (a boolean-valued term or any value,
        whose truth is meant)."""
        f = st.facts
        r = f.get(c)
        if r is not None:
            return r
        op = c.op
        if op == 'const':
            return bool(c.args[1])
        if op == 'not':
            r = self.decide(st, c.args[0])
            return None if r is None else not r
        if op == 'truth':
            return self._truth(st, c.args[0])
        if op == 'isnone':
            return self._isnone(st, c.args[0])
        if op == 'eq':
            return self._eq(st, c.args[0], c.args[1])
        if op == 'same':
            return self._same(st, c.args[0], c.args[1])
        if op == 'lt':
            return self._lt(st, c)
        if op == 'in':
            return self._in(st, c.args[0], c.args[1])
        if op == 'isinst':
            return self._isinst(st, c.args[0], c.args[1])
        return self._truth(st, c)

    def _truth(self, st, t):
        t = subst(st, t)
        if t.op in BOOLEAN:
            return self.decide(st, t)
        if t.op == 'const':
            return bool(t.args[1])
        if t.op in ALWAYS_TRUE:
            return True
        r = st.facts.get(mk('truth', t))
        if r is not None:
            return r
        c = seq_content(st, t)
        if c is not None:
            if any(not is_star(x) for x in c):
                return True
            return False if not c else None
        c = map_content(st, t)
        if c is not None:
            if any(k is not STARSTAR for k, v in c):
                return True
            return False if not c else None
        if t.op == 'fstr':
            if any(x.op == 'const' and x.args[1] for x in t.args):
                return True
        if st.facts.get(mk('isnone', t)) is True:
            return False
        if t.op == 'obj':
            if not self.ip.p.find_method(t.args[0], '__bool__') and not self.ip.p.find_method(t.args[0], '__len__'):
                return True
        if t.op == 'call' and t.args[0] in ('threading.Lock', 'threading.RLock', 'threading.Thread', '.socket',
                                            'zmq.Poller', 'subprocess.Popen', 'logging.getLogger'):
            return True
        if t.op == 'phi':
            rs = {self._truth(st, x) for x in t.args}
            if len(rs) == 1:
                return rs.pop()
        if t.op == 'bin' and t.args[0] == '+' and (self._truth(st, t.args[1]) is True or self._truth(st, t.args[2]) is True):
            for x in t.args[1:]:
                if x.op in ('list', 'tuple', 'fstr') or (x.op == 'const' and isinstance(x.args[1], (str, bytes, tuple))):
                    if self._truth(st, x):
                        return True
        return None

    def _isnone(self, st, t):
        t = subst(st, t)
        if t.op == 'const':
            return t.args[1] is None
        if t.op in NEVER_NONE or (t.op == 'sym' and t.args[0].startswith('*')) or t.op in ('bin', 'un', 'ext', 'elemlit', 'lin') \
                or t.op == 'sym' and len(t.args) > 1 and str(t.args[1]).startswith('ext:'):
            return False
        r = st.facts.get(mk('isnone', t))
        if r is not None:
            return r
        if st.facts.get(mk('truth', t)) is True:
            return False
        if t.op == 'call':
            n = t.args[0]
            if n in NOTNONE_CALLS or (looks_like_class(n) and not n.startswith(('.', '@'))):
                return False
        if t.op == 'phi':
            rs = {self._isnone(st, x) for x in t.args}
            if len(rs) == 1:
                return rs.pop()
        if t.op in ('item', 'attr') and self.ip.policy.notnone(t):
            return False
        for (k, v) in st.facts.items():
            if v is True and k.op == 'isinst' and k.args[0] is t and k.args[1].op in ('ext', 'cls'):
                if k.args[1].args[0] not in ('object', 'NoneType', 'builtins.object'):
                    return False
        return None

    def _same(self, st, a, b):
        a, b = subst(st, a), subst(st, b)
        if a is b:
            return True
        if a.op == 'const' and b.op == 'const':
            return a.args[1] is b.args[1] if (a.args[1] is None or b.args[1] is None or isinstance(a.args[1], bool)
                                              or isinstance(b.args[1], bool)) else None
        r = st.facts.get(same_atom(a, b))
        if r is not None:
            return r
        ops = {a.op, b.op}
        if a.op in ('alloc', 'obj', 'tuple', 'cls', 'func', 'list', 'dict') and b.op in ('const', 'alloc', 'obj', 'tuple', 'cls', 'func'):
            if 'tuple' not in ops:
                if a.op == 'obj' and b.op == 'obj' and ('sym' in (str(a.args[1]), str(b.args[1]))):
                    return None
                return False
        if b.op in ('alloc', 'obj', 'cls', 'func') and a.op == 'const':
            return False
        for x, y in ((a, b), (b, a)):
            if x.op == 'sym' and y.op in ('alloc', 'dict', 'list'):
                return False
        if a.op == 'phi' or b.op == 'phi':
            p, o = (a, b) if a.op == 'phi' else (b, a)
            rs = {self._same(st, x, o) for x in p.args}
            if len(rs) == 1:
                return rs.pop()
        return None

    def _eq(self, st, a, b):
        a, b = subst(st, a), subst(st, b)
        if a is b:
            return True
        if a.op == 'const' and b.op == 'const':
            return a.args[1] == b.args[1]
        at = eq_atom(a, b)
        if at.op == 'const':
            return bool(at.args[1])
        r = self_direct = st.facts.get(at)
        if r is not None:
            return r
        c, o = (a, b) if a.op == 'const' else (b, a)
        if c.op == 'const':
            v = c.args[1]
            if o.op == 'ext' and o.args[0] in PLATFORM:
                return v == PLATFORM[o.args[0]]
            if o.op in ('cls', 'func', 'bound', 'mod', 'exc', 'ext', 'gen'):
                return False
            if o.op in ('alloc', 'list', 'dict', 'tuple', 'set', 'obj'):
                if isinstance(v, (str, bytes, int, float, bool)) or v is None:
                    return False
            if o.op == 'fstr':
                if not isinstance(v, str):
                    return False
                pre = o.args[0]
                if pre.op == 'const' and not v.startswith(pre.args[1]):
                    return False
            if v is None:
                return self._isnone(st, o)
            if v is True or v is False:
                if self._isnone(st, o) is True:
                    return False
                tr = self._truth(st, o)
                if tr is not None and tr is not v:
                    return False
                if tr is not None and o.op in BOOLEAN:
                    return tr is v
            if v == '' or v == b'':
                if self._truth(st, o) is True:
                    return False
            elif self._isnone(st, o) is True:
                return False
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return False if not any(is_star(x) for x in a.args + b.args) else None
            rs = [self._eq(st, x, y) for x, y in zip(a.args, b.args)]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        if a.op == 'phi' or b.op == 'phi':
            p, o = (a, b) if a.op == 'phi' else (b, a)
            rs = {self._eq(st, x, o) for x in p.args}
            if len(rs) == 1:
                return rs.pop()
        return None

    def _lt(self, st, atom):
        r = st.facts.get(atom)
        if r is not None:
            return r
        items, k = atom.args
        # substitute known constants
        acc = [{}, k]
        ch = False
        for t, c in items:
            t2 = subst(st, t)
            if t2 is not t and is_const(t2) and isinstance(t2.args[1], (int, float)):
                acc[1] += c * t2.args[1]
                ch = True
            else:
                acc[0][t] = acc[0].get(t, 0) + c
        if ch:
            if not acc[0]:
                return acc[1] < 0
            items = tuple(sorted(acc[0].items(), key=lambda x: x[0].uid))
            k = acc[1]
            r = st.facts.get(mk('lt', items, k))
            if r is not None:
                return r
        neg = tuple((t, -c) for t, c in items)
        # s + k < 0 ?   known: s + k2 < 0 (bool) or -s + k3 < 0 (bool)
        hi = lo = None      # s < hi (strict flag), s > lo
        if len(items) == 1 and items[0][1] in (1, -1):
            t = items[0][0]
            if t.op == 'call' and t.args[0] == 'len':
                tr = self._truth(st, t.args[2][0])
                if tr is not None:
                    # len is 0 or >= 1
                    if tr is False:
                        return k < 0
                    if items[0][1] == 1 and 1 + k >= 0:
                        return False
                    if items[0][1] == -1 and -1 + k < 0:
                        return True
                elif items[0][1] == 1 and k >= 0:
                    return False
                elif items[0][1] == -1 and k < 0:
                    return True
        for f, v in st.facts.items():
            if f.op != 'lt':
                continue
            fi, fk = f.args
            if fi == items:
                if v is True and fk >= k:      # s < -fk <= -k
                    return True
                if v is False and fk <= k:     # s >= -fk >= -k
                    return False
            elif fi == neg:
                # -s + fk < 0  =>  s > fk ; s + k < 0 <=> s < -k
                if v is True and fk >= -k:
                    return False
                # s <= fk
                if v is False and fk < -k:
                    return True
        return None

    def _in(self, st, a, b):
        a, b = subst(st, a), subst(st, b)
        m = st.heap.get((b, 'i', a))
        if m is not None:
            return m is not DELETED
        r = st.facts.get(mk('in', a, b))
        if r is not None:
            return r
        c = map_content(st, b)
        if c is not None:
            res = False
            for k, v in c:
                if k is STARSTAR:
                    res = None
                    continue
                e = self._eq(st, k, a)
                if e is True:
                    return True
                if e is None:
                    res = None
            return res
        c = seq_content(st, b)
        if c is not None:
            res = False
            for x in c:
                if is_star(x):
                    res = None
                    continue
                e = self._eq(st, x, a)
                if e is True:
                    return True
                if e is None:
                    res = None
            return res
        if b.op == 'const' and isinstance(b.args[1], str) and a.op == 'const' and isinstance(a.args[1], str):
            return a.args[1] in b.args[1]
        return None

    CONST_TYPES = {'str': str, 'bytes': bytes, 'int': int, 'float': float, 'bool': bool, 'tuple': tuple,
                   'list': list, 'dict': dict, 'object': object, 'set': set}

    def _isinst(self, st, t, c):
        t = subst(st, t)
        r = st.facts.get(mk('isinst', t, c))
        if r is not None:
            return r
        if c.op == 'tuple':
            rs = [self._isinst(st, t, x) for x in c.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        cn = c.args[0] if c.op in ('cls', 'ext') else None
        if cn is None:
            if c.op == 'type' or (c.op == 'call' and c.args[0] == 'type' and c.args[2] and c.args[2][0] is NONE):
                return self._isnone(st, t)
            return None
        if t.op == 'const':
            ty = self.CONST_TYPES.get(cn)
            if ty is not None:
                return isinstance(t.args[1], ty)
            if cn == 'NoneType':
                return t.args[1] is None
            return False
        tn = self.ip.type_of(st, t)
        if tn:
            if c.op == 'cls':
                if tn.startswith('ext:'):
                    return False
                r = self.ip.p.is_subclass(tn, cn)
                if r:
                    return True
                if t.op == 'obj' and t.args[1] != 'sym':
                    return False
                if not any(self.ip.p.is_subclass(s, cn) for s in self.ip.p.subclasses(tn)):
                    return False
                return None
            if not tn.startswith('ext:'):
                eb = self.ip.p.ext_bases(tn)
                if cn == 'object' or any(type_sub(self.ip, x, cn) for x in eb):
                    return True
                if cn in self.CONST_TYPES or cn == 'NoneType':
                    return False
                if all(x == 'object' for x in eb) and canon_type(cn).split('.')[0] in ('numpy', 'datetime', 'multiprocessing', 'decimal', 'uuid', 'ctypes', 'threading', 'socket'):
                    return False
                return None
            if type_sub(self.ip, tn[4:], cn):
                return True
            if disjoint(tn[4:], cn):
                return False
        kind = {'tuple': 'tuple', 'list': 'list', 'dict': 'dict', 'set': 'set', 'fstr': 'str'}.get(t.op)
        if t.op == 'alloc':
            kind = t.args[0]
        if kind:
            if cn in ('object',):
                return True
            return kind == cn if cn in self.CONST_TYPES else False
        if t.op == 'exc':
            if self.ip.h.issub(t.args[0], cn):
                return True
            if not t.args[1]:
                return False
        if t.op in ('func', 'bound', 'mod', 'cls') and cn in self.CONST_TYPES:
            return cn == 'object'
        if st.facts.get(mk('isnone', t)) is True:
            return cn in ('NoneType', 'object')
        # subclass reasoning from known instance facts
        for f, v in st.facts.items():
            if f.op == 'isinst' and f.args[0] is t and f.args[1].op in ('cls', 'ext'):
                o = f.args[1].args[0]
                if v is True and type_sub(self.ip, o, cn):
                    return True
                if v is True and disjoint(o, cn):
                    return False
                if v is False and type_sub(self.ip, cn, o):
                    return False
        return None

    # ---- assume -----------------------------------------------------------------------------
    def assume(self, st, c, b):
        """Add the fact; False if it contradicts what is known."""
        d = self.decide(st, c)
        if d is not None:
            return d == b
        op = c.op
        if op == 'not':
            return self.assume(st, c.args[0], not b)
        if op == 'truth':
            t = subst(st, c.args[0])
            if t.op in BOOLEAN:
                return self.assume(st, t, b)
            return self._put_truth(st, t, b)
        if op == 'isnone':
            t = subst(st, c.args[0])
            st.facts[mk('isnone', t)] = b
            if b:
                st.facts[mk('=', t)] = NONE
            else:
                self._filter_phi(st, t, lambda s, x: self._isnone(s, x) is not True)
            return True
        if op == 'eq':
            a, o = subst(st, c.args[0]), subst(st, c.args[1])
            if o.op != 'const':
                a, o = o, a
            st.facts[eq_atom(a, o)] = b
            if b and o.op == 'const':
                st.facts[mk('=', a)] = o
            elif not b:
                self._filter_phi(st, a, lambda s, x: self._eq(s, x, o) is not True)
            elif b:
                self._filter_phi(st, a, lambda s, x: self._eq(s, x, o) is not False)
            return True
        if op == 'same':
            a, o = subst(st, c.args[0]), subst(st, c.args[1])
            if o.op != 'const':
                a, o = o, a
            st.facts[same_atom(a, o)] = b
            if b and o.op in ('const', 'cls', 'obj', 'alloc', 'func', 'ext'):
                st.facts[mk('=', a)] = o
            else:
                self._filter_phi(st, a, lambda s, x: self._same(s, x, o) is not (not b))
            return True
        if op == 'isinst':
            t = subst(st, c.args[0])
            st.facts[mk('isinst', t, c.args[1])] = b
            self._filter_phi(st, t, lambda s, x: self._isinst(s, x, c.args[1]) is not (not b))
            return True
        if op == 'in':
            st.facts[mk('in', subst(st, c.args[0]), subst(st, c.args[1]))] = b
            return True
        if op == 'lt':
            st.facts[c] = b
            its, k = c.args
            if len(its) == 1 and its[0][0].op == 'call' and its[0][0].args[0] == 'len':
                t = its[0][0].args[2][0]
                cf = its[0][1]
                # cf*len + k < 0
                zero = (k < 0) == b
                one_plus = None
                if cf == 1 and b and k >= -1:      # len < 1
                    self._put_truth(st, t, False)
                elif cf == -1 and b and k <= 0 and not (k < 0):   # -len < 0
                    self._put_truth(st, t, True)
                elif cf == 1 and not b and k < 0:    # len >= -k > 0
                    self._put_truth(st, t, True)
                elif cf == -1 and not b and k == 0:   # len <= 0
                    self._put_truth(st, t, False)
            return True
        return self._put_truth(st, c, b)

    def _put_truth(self, st, t, b):
        t = subst(st, t)
        if t.op in BOOLEAN:
            return self.assume(st, t, b)
        st.facts[mk('truth', t)] = b
        if b:
            st.facts[mk('isnone', t)] = False
        self._filter_phi(st, t, lambda s, x: self._truth(s, x) is not (not b))
        return True

    def _filter_phi(self, st, t, keep):
        if t.op != 'phi':
            return
        ks = [x for x in t.args if keep(st, x)]
        if not ks or len(ks) == len(t.args):
            return
        st.facts[mk('=', t)] = ks[0] if len(ks) == 1 else phi(ks)


def phi(terms):
    s = []
    for t in terms:
        for x in (t.args if t.op == 'phi' else (t,)):
            if x not in s:
                s.append(x)
    if len(s) == 1:
        return s[0]
    if len(s) > 12:
        return mk('unknown', 'phi')
    return mk('phi', *sorted(s, key=lambda x: x.uid))


# what is analysed is the library on Linux
PLATFORM = {'sys.platform': 'linux', 'os.name': 'posix'}


def eq_atom(a, b):
    """Canonical equality atom (constant on the right)."""
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args[1] == b.args[1] else FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == 'const' and y.args[1] is None:
            return mk('isnone', x)
        if y.op == 'const' and y.args[1] == 0 and not isinstance(y.args[1], bool) and x.op == 'call' and x.args[0] == 'len':
            return mk('not', mk('truth', x.args[2][0]))
    if a.op == 'const' or (b.op != 'const' and a.uid > b.uid):
        a, b = b, a
    return mk('eq', a, b)


def same_atom(a, b):
    for x, y in ((a, b), (b, a)):
        if y.op == 'const' and y.args[1] is None:
            return mk('isnone', x)
        if y.op == 'const':
            return eq_atom(x, y)
    if a.uid > b.uid:
        a, b = b, a
    return mk('same', a, b)


EXT_SUB = {
    ('bool', 'int'), ('datetime.datetime', 'datetime.date'),
    ('np.bool_', 'np.generic'),
    ('numpy.integer', 'numpy.number'), ('numpy.floating', 'numpy.number'), ('numpy.complexfloating', 'numpy.number'),
    ('numpy.inexact', 'numpy.number'), ('numpy.floating', 'numpy.inexact'), ('numpy.complexfloating', 'numpy.inexact'),
    ('numpy.timedelta64', 'numpy.integer'), ('numpy.timedelta64', 'numpy.signedinteger'), ('numpy.timedelta64', 'numpy.number'),
    ('numpy.longdouble', 'numpy.floating'), ('numpy.longdouble', 'numpy.number'), ('numpy.longdouble', 'numpy.inexact'),
    ('numpy.float64', 'numpy.floating'), ('numpy.float64', 'float'), ('numpy.float64', 'numpy.number'),
}
# pairwise disjoint families of concrete types
FAMILIES = ['str', 'bytes', 'int', 'float', 'tuple', 'list', 'dict', 'set', 'NoneType', 'datetime.date', 'numpy.ndarray',
            'numpy.dtype', 'numpy.bool_', 'numpy.integer', 'numpy.floating', 'numpy.complexfloating',
            'multiprocessing.shared_memory.SharedMemory']
FAM_OF = {'bool': 'int', 'datetime.datetime': 'datetime.date', 'numpy.timedelta64': 'numpy.integer',
          'numpy.longdouble': 'numpy.floating', 'numpy.number': 'numpy.number'}


def canon_type(n):
    if n.startswith('np.'):
        n = 'numpy.' + n[3:]
    return n


def type_sub(ip, a, b):
    a, b = canon_type(a), canon_type(b)
    if a == b or b == 'object':
        return True
    if (a, b) in EXT_SUB:
        return True
    if ':' in a and ':' in b and a in ip.p.classes:
        return ip.p.is_subclass(a, b)
    return False


def disjoint(a, b):
    a, b = canon_type(a), canon_type(b)
    if (a, b) in EXT_SUB or (b, a) in EXT_SUB or a == b:
        return False
    fa, fb = FAM_OF.get(a, a), FAM_OF.get(b, b)
    if fa == 'numpy.number' or fb == 'numpy.number':
        o = fb if fa == 'numpy.number' else fa
        return not o.startswith('numpy.') and o not in ('float', 'int') and (o in FAMILIES or ':' in o) or o in ('numpy.ndarray', 'numpy.dtype', 'numpy.bool_')
    ka = fa in FAMILIES or ':' in a
    kb = fb in FAMILIES or ':' in b
    if ':' in a and ':' in b:
        return False
    if {fa, fb} == {'float', 'numpy.floating'}:
        return False
    return ka and kb and fa != fb
