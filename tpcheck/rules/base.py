"""Shared pieces of the rules: recording policy, path queries, reporting."""
from ..terms import mk, const, NONE, TRUE, FALSE, is_const, cval, sym, ext, subterms, mentions, show
from ..interp import Interp, Policy, default_raises
from ..project import AnalysisBroken
from ..state import State, eq_atom, same_atom, lin_lt, lt_parts, DELETED, STARSTAR


class RP(Policy):
    """Policy built from predicates.

    names:  call names recorded ('call' events); kinds: other event kinds recorded
    opaque: predicate over FuncInfo; nofail: names that do not fail here; fail: {name: specs}
    """
    merge = True

    def __init__(self, names=(), kinds=(), record=None, opaque=None, nofail=(), fail=None, split=None,
                 raising=True, keep_origin=False, hook=None, raises_of=None, result=None, reads=None,
                 volatile=None, want_loops=False, merge=True, raise_events=(), max_states=600, opaque_class=None,
                 raises=None, bump=None, formats=False):
        self._names = set(names)
        self._kinds = set(kinds)
        self._record = record
        self._opaque = opaque
        self._nofail = set(nofail)
        self._fail = fail or {}
        self._split = split
        self._raising = raising
        self.keep_origin = keep_origin
        self._hook = hook
        self._result = result
        self._reads = reads
        self._volatile = volatile
        self.want_loops = want_loops
        self.merge = merge
        self._raise_events = set(raise_events)
        self.max_states = max_states
        self._opaque_class = opaque_class
        self._raises = raises
        self._bump = bump
        self.formats = formats

    def record(self, ev):
        if ev.kind == 'raises':
            return ev.name in self._raise_events
        if ev.kind in self._kinds:
            return True
        if ev.kind == 'call' and ev.name in self._names:
            return True
        return bool(self._record and self._record(ev))

    def raises(self, ev, st):
        if self._raises is not None:
            r = self._raises(ev, st)
            if r is not None:
                return r
        if ev.name in self._fail:
            return self._fail[ev.name]
        if ev.name in self._nofail or ev.kind in self._nofail:
            return ()
        if not self._raising:
            return ()
        return default_raises(ev)

    def opaque(self, fi):
        return bool(self._opaque and self._opaque(fi))

    def opaque_class(self, key):
        return bool(self._opaque_class and self._opaque_class(key))

    def split(self, atom):
        return bool(self._split and self._split(atom))

    def call_hook(self, ip, st, fval, args, kwargs, node, fr):
        return self._hook(ip, st, fval, args, kwargs, node, fr) if self._hook else None

    def result(self, ev, st):
        return self._result(ev, st) if self._result else None

    def reads(self, base, name):
        return bool(self._reads and self._reads(base, name))

    def bump(self, ev):
        return bool(self._bump and self._bump(ev))

    def volatile(self, base, name):
        return bool(self._volatile and self._volatile(base, name))


def flat(trace, depth=0):
    """Events of a trace, with those of loop iterations (each iteration's events, once)."""
    for ev in trace:
        if ev.kind == 'loop':
            for it in ev.extra:
                for e in flat(it.trace, depth + 1):
                    yield e
        else:
            yield ev


def calls(trace, name=None, recv=None):
    return [e for e in flat(trace) if e.kind == 'call' and (name is None or e.name == name or
            (isinstance(name, (set, tuple, list, frozenset)) and e.name in name)) and (recv is None or e.recv is recv)]


def alts(t):
    """Alternatives of a value (phi flattened)."""
    if t is not None and t.op == 'phi':
        r = []
        for x in t.args:
            for y in alts(x):
                if y not in r:
                    r.append(y)
        return r
    return [t]


def dict_of(t):
    """{const key: value} of a frozen dict term, plus has_unknown flag."""
    d = {}
    unk = False
    for k, v in t.args:
        if k is STARSTAR or not is_const(k):
            unk = True
        else:
            d[cval(k)] = v
    return d, unk


def dicts_in(t):
    return [x for x in subterms(t) if isinstance(x, type(t)) and x.op == 'dict']


class Violation:
    def __init__(self, rule, construct, where, msg):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.msg = msg

    @property
    def key(self):
        return '%s @ %s' % (self.rule, self.construct)


class Ctx:
    def __init__(self, project, prop):
        self.p = project
        self.prop = prop
        self.violations = []
        self.obligations = {}       # rule -> [checked, ok]
        self.samples = []
        self.ips = []
        self.functions = set()

    # ---- analysis -----------------------------------------------------------------------
    def interp(self, policy):
        ip = Interp(self.p, policy)
        self.ips.append(ip)
        return ip

    def run(self, policy, key, **kw):
        ip = self.interp(policy)
        r = ip.run(key, **kw)
        return r

    # ---- reporting ----------------------------------------------------------------------
    def check(self, cond, rule, construct, where, msg):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        if cond:
            o[1] += 1
            if o[1] <= 2 and len(self.samples) < 30:
                self.samples.append('%s: %s @ %s' % (rule, construct, where))
        else:
            v = Violation(rule, str(construct), str(where), msg)
            if v.key not in [x.key for x in self.violations]:
                self.violations.append(v)
        return cond

    def fail(self, rule, construct, where, msg):
        return self.check(False, rule, construct, where, msg)

    def require(self, rule, n, what=''):
        """At least n obligations of this rule must have been generated (no vacuous pass)."""
        if self.obligations.get(rule, [0])[0] < n:
            raise AnalysisBroken('rule %s generated %d obligations, expected at least %d %s' % (
                rule, self.obligations.get(rule, [0])[0], n, what))

    def stats(self):
        fns = set()
        for ip in self.ips:
            fns |= ip.analysed
        return {'functions_analysed': sorted(fns | self.functions), 'paths': sum(ip.npaths for ip in self.ips),
                'operations': sum(ip.ncalls for ip in self.ips), 'statements': sum(ip.steps for ip in self.ips)}


def exc_where(e):
    if e.op == 'exc' and e.args[3] is not None and getattr(e.args[3], 'op', None) == 'origin':
        o = e.args[3].args
        return o[2], '%s:%s' % (o[2], o[3]), o[1]
    return '?', '?', '?'


def fn_of(ev):
    return ev.fn or '?'


def within(fi, *modules):
    return fi.module.name in modules


def short(t, n=160):
    s = show(t) if t is not None else 'None'
    return s if len(s) <= n else s[:n] + '...'


def cls(ctx, name):
    """ClassInfo of a class of the library, wherever it is defined."""
    return ctx.p.classes[ctx.p.find_class(name)]


def stores(p, name):
    """(function or None, module name, node) of every write to an attribute of this name."""
    m = p.__dict__.get('_fn_of_node')
    if m is None:
        m = p.__dict__['_fn_of_node'] = {id(f.node): f for f in p.funcs.values()}
    return [(m.get(id(fn)) if fn is not None else None, mod, node) for mod, fn, node in p.attr_stores.get(name, [])]


def index_of(trace, ev):
    for i, e in enumerate(trace):
        if e is ev or (e.kind == 'loop' and any(x is ev for x in flat([e]))):
            return i
    return -1


def vals_of(t, key):
    """Possible values of a key of a (frozen) dict; None stands for 'possibly absent'."""
    if t is None:
        return [None]
    if t.op == 'phi':
        r = []
        for x in t.args:
            r.extend(y for y in vals_of(x, key) if y not in r)
        return r
    k0 = const(key)
    if t.op == 'dict':
        r = [None]
        for k, v in t.args:
            if k is k0:
                r = [v]
            elif k is STARSTAR:
                sub = many_vals(v, k0)
                if not sub and v.op in ('attr', 'sym', 'at', 'mu', 'item', 'kwrest', 'call', 'upd', 'get', 'objdict'):
                    sub = vals_of(v, key) if v.op == 'upd' else [mk('item', v, k0)]
                    r = [x for x in r if x is not None] + sub
                elif sub:
                    r = [x for x in r if x is not None] + sub if r != [None] else sub
        return r
    if t.op == 'upd':
        for k, v in reversed(t.args[1]):
            if k is k0:
                return [None if v is DELETED else v]
        return vals_of(t.args[0], key)
    return [mk('item', t, k0)]


def many_vals(v, k0):
    """Values a key may get from a widened part of a dict."""
    if v.op == 'dict':
        return [x for k, x in v.args if k is k0]
    if v.op == 'phi':
        return [y for x in v.args for y in many_vals(x, k0)]
    if v.op in ('manymap', 'many'):
        r = []
        for x in v.args[1:]:
            if isinstance(x, tuple):
                if x[0] is k0:
                    r.append(x[1])
            elif getattr(x, 'op', None) == 'tuple' and len(x.args) == 2 and x.args[0] is k0:
                r.append(x.args[1])
        return r
    return []


def flatset(vals):
    r = []
    for v in vals:
        for a in (alts(v) if v is not None else [None]):
            if a not in r:
                r.append(a)
    return r


def assumed(st, atoms):
    for a, b in atoms:
        st.facts[a] = b
    return st


def implies_empty(facts, x):
    """Do the facts exclude that x (a sequence or mapping, possibly seen through a copy) has an element?"""
    def is_x(t):
        return t is x or (t.op in ('tuple', 'list') and len(t.args) == 1 and t.args[0].op == 'star' and is_x(t.args[0].args[0])) or \
            (t.op == 'upd' and all(v is DELETED for _, v in t.args[1]) and is_x(t.args[0])) or \
            (t.op == 'call' and t.args[0] in ('tuple', 'list', 'dict') and len(t.args[2]) == 1 and is_x(t.args[2][0])) or \
            (t.op == 'dict' and len(t.args) >= 1 and all(v is DELETED for k, v in t.args if k is not STARSTAR) and
             any(is_x(v) for k, v in t.args if k is STARSTAR))

    def is_len(t):
        return (t.op == 'len' and is_x(t.args[0])) or (t.op == 'call' and t.args[0] == 'len' and t.args[2] and is_x(t.args[2][0]))

    def value(c, n):
        if c.op == 'truth':
            return n > 0 if is_x(c.args[0]) or is_len(c.args[0]) else None
        if c.op == 'lt':
            its, k = lt_parts(c)
            tot = k
            for t, co in its:
                if not is_len(t):
                    return None
                tot += co * n
            return tot < 0
        if c.op == 'eq':
            a, b = c.args
            for u, v in ((a, b), (b, a)):
                if is_len(u) and is_const(v):
                    return cval(v) == n
                if is_x(u) and v.op in ('tuple', 'list', 'dict'):
                    return (len(v.args) == n) if not v.args else None
        return None
    alive = {0: True, 1: True, 2: True, 7: True}
    for c, b in facts.items():
        if isinstance(b, bool):
            for n in alive:
                r = value(c, n)
                if r is not None and r != b:
                    alive[n] = False
    return not (alive[1] or alive[2] or alive[7])


def is_done(p, fut):
    """Was this future found to have its result on this path?"""
    return any(b is True and any(t.op == 'call' and t.args[0].endswith('.done') and (t.args[1] is fut or fut in t.args[2]) for t in subterms(c)) for c, b in p.facts.items())
