"""Path-sensitive abstract interpreter over the syntax tree (no execution, no solver).

Enumerates the paths of an entry point (project functions are inlined), with exceptional exits,
and records a trace of events on each.  Loops are summarised: the variables and fields they change
are widened, and one arbitrary iteration is analysed.
"""
import ast
import builtins
import builtins
from .terms import (Term, mk, const, NONE, TRUE, FALSE, is_const, cval, NOCONST, sym, ext, subterms)
from .project import AnalysisBroken, ClassInfo, FuncInfo, dotted
from .state import (State, Event, Iteration, Logic, DELETED, STARSTAR, subst, phi, eq_atom, same_atom, lin_lt,
                    seq_content, map_content, is_star, BOOLEAN, looks_like_class)
from .exc import Hierarchy, canon
from .live import dead_after

DEAD = {}

BUILTINS = set(dir(builtins))

PURE = {'len', 'str', 'repr', 'id', 'type', 'hash', 'int', 'float', 'bool', 'bytes', 'isinstance', 'sorted', 'min',
        'max', 'sum', 'abs', 'callable', 'range', 'zip', 'enumerate', 'reversed', 'tuple', 'list', 'dict', 'set',
        'frozenset', 'ord', 'chr', 'round', 'issubclass', 'vars', 'dir', 'map', 'filter', 'any', 'all', 'iter',
        'object', 'getattr', 'hasattr', 'print', 'slice',
        'threading.current_thread', 'threading.get_ident', 'logging.getLogger', 'sys.exc_info',
        'zmq.Context.instance', 'os.getpid', 'socket.gethostname',
        'traceback.format_exception', 'traceback.format_stack', 'traceback.format_exc', 'traceback.format_tb',
        'shlex.quote', 'shlex.join', 'subprocess.list2cmdline', 'json.dumps', 'json.loads', 'pickle.dumps',
        'base64.b64encode', 'base64.b64decode', 'numpy.prod', 'numpy.dtype', 'numpy.ascontiguousarray',
        'math.prod', 'inspect.currentframe', 'threading.main_thread'}
PURE_METHODS = {'decode', 'encode', 'format', 'join', 'split', 'lstrip', 'rstrip', 'strip', 'upper', 'lower',
                'startswith', 'endswith', 'isdigit', 'isoformat', 'keys', 'values', 'items', 'copy', 'hex', 'tobytes',
                'tolist', 'partition', 'rpartition', 'rsplit', 'replace', 'rstrip', 'groups', 'group', 'title', 'count',
                'index', 'find', 'getMessage', 'item', 'total_seconds', 'splitlines', 'getEffectiveLevel'}
# calls that cannot fail for the purposes of path exploration
NOFAIL = {'contextlib.suppress', 'len', 'str', 'repr', 'id', 'type', 'isinstance', 'bool', 'callable', 'print', 'hasattr', 'range', 'zip',
          'enumerate', 'reversed', 'tuple', 'list', 'dict', 'set', 'frozenset', 'sorted', 'vars', 'dir', 'super', 'object',
          'map', 'filter', 'any', 'all', 'iter', 'slice', 'hash', 'issubclass', 'sum', 'abs',
          'threading.current_thread', 'threading.get_ident', 'threading.Lock', 'threading.RLock', 'threading.Thread',
          'threading.Event', 'threading.main_thread', 'logging.getLogger', 'sys.exc_info', 'time.time', 'time.perf_counter',
          'time.monotonic', 'time.sleep', 'traceback.format_exception', 'traceback.format_stack', 'traceback.format_exc',
          'traceback.print_exc', 'zmq.Context.instance', 'zmq.Context', 'zmq.Poller', 'queue.Queue', 'os.getpid', 'atexit.register',
          'weakref.WeakValueDictionary', 'uuid.uuid4', 'socket.gethostname', 'shlex.quote', 'sys.exit',
          'collections.deque', 'collections.OrderedDict', 'collections.defaultdict'}
SIZE_MUTATORS = {'.append', '.add', '.pop', '.remove', '.discard', '.clear', '.popitem', '.update', '.extend', '.insert', '.setdefault', '.popleft', '.appendleft'}
NOFAIL_METHODS = {'debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'append', 'add', 'get', 'setdefault',
                  'items', 'keys', 'values', 'copy', 'update', 'clear', 'extend', 'startswith', 'endswith', 'strip', 'lstrip',
                  'rstrip', 'split', 'join', 'format', 'upper', 'lower', 'isdigit', 'register', 'put', 'put_nowait', 'acquire',
                  'release', 'setdefault', 'discard', 'is_alive', 'sort', 'insert', 'done', 'partition', 'replace',
                  'rpartition', 'rsplit', 'hex', 'isoformat', 'set', 'is_set', 'title', 'groups', 'group', 'count'}
EXC_TOP = 'BaseException'


def freeze_const(v):
    return const(v)


class Frame:
    __slots__ = ('fid', 'fi', 'parent', 'module', 'closure', 'cls')

    def __init__(self, fid, fi, parent, module):
        self.fid = fid
        self.fi = fi
        self.parent = parent
        self.module = module
        self.closure = False
        self.cls = fi.cls if fi else None


class Out:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


class Policy:
    """What a rule wants to see.  Override as needed."""
    max_states = 600
    max_steps = 400000
    merge = False
    keep_origin = False
    max_depth = 24

    def record(self, ev):
        return True

    def raises(self, ev, st):
        """Exception kinds an operation may raise: iterable of kind strings ('Exception*' = any)."""
        return default_raises(ev)

    def opaque(self, fi):
        return False

    def split(self, atom):
        """Facts that must survive merging (paths that differ in them are kept apart)."""
        return False

    def result(self, ev, st):
        return None

    def notnone(self, t):
        return False

    def reads(self, base, name):
        return False

    def volatile(self, base, name):
        return False

    formats = False     # may turning a value into text fail? (raises() is asked)

    def bump(self, ev):
        """May other code that writes volatile fields run during this event?"""
        return False

    def call_hook(self, ip, st, fval, args, kwargs, node, fr):
        return None


EXCEPTIONS = {n for n, c in vars(builtins).items() if isinstance(c, type) and issubclass(c, BaseException)}


def default_raises(ev):
    n = ev.name
    if ev.kind == 'getitem':
        return ('LookupError*',)
    if ev.kind == 'del':
        return ('LookupError*',)
    if ev.kind == 'unpack':
        return ('ValueError',)
    if ev.kind != 'call':
        return ()
    if n in EXCEPTIONS or n in NOFAIL or (n.startswith('.') and n[1:] in NOFAIL_METHODS):
        return ()
    if n in ('int', 'float'):
        return ('ValueError',)
    if n == '.decode' or n == '.encode':
        if ev.kw('errors') is not None or len(ev.args) > 1:
            return ()
        return ('ValueError*',)
    if n == '.pop':
        return () if len(ev.args) > 1 else ('LookupError*',)
    if n == '.remove':
        return ('LookupError*', 'ValueError*')
    if n == 'getattr':
        return () if len(ev.args) > 2 else ('AttributeError',)
    if n == 'next':
        return ('StopIteration',)
    if n == '()':
        return ('BaseException*',)
    return ('Exception*',)


class Path:
    __slots__ = ('kind', 'val', 'st', 'trace', 'facts')

    def __init__(self, kind, val, st):
        self.kind = kind        # 'return' | 'raise'
        self.val = val
        self.st = st
        self.trace = st.trace
        self.facts = st.facts


def outside(v, k, top=True):
    """Does v depend on what k ranges over in another way than through k?"""
    if v is k:
        return False
    if getattr(v, 'op', None) in ('key', 'elem'):
        return any(v is x for x in subterms(k))
    return any(outside(a, k, False) for a in (v.args if hasattr(v, 'op') else v if isinstance(v, tuple) else ()))


class Interp:
    def __init__(self, project, policy):
        self.p = project
        self.policy = policy
        self.h = Hierarchy(project)
        self.logic = Logic(self)
        self.raised = []
        self.endless = []
        self.frames = {}
        self.nfid = 0
        self.steps = 0
        self.stack = []         # FuncInfo keys being inlined
        self.yield_handlers = []
        self._ftypes = {}
        self._dead = DEAD
        self._gcache = {}
        self._final = {}
        self.analysed = set()   # function keys interpreted
        self.npaths = 0
        self.ncalls = 0
        self.merged = 0
        self.loop_stack = []

    # ================================================================== entry
    def fresh(self):
        return State()

    def self_obj(self, clskey):
        return mk('obj', clskey, 'sym')

    def run(self, key, args=None, self_val=None, st=None, assume=(), kwargs=None):
        """Enumerate the paths of a project function from symbolic arguments."""
        fi = key if isinstance(key, FuncInfo) else self.p.func(key)
        st = st or State()
        args = dict(args or {})
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if fi.cls is not None and not fi.is_static and pos:
            if pos[0] not in args:
                args[pos[0]] = self_val or (mk('cls', fi.cls.key) if fi.is_class else self.self_obj(fi.cls.key))
        fr = self.new_frame(fi, None)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            st.env[(fr.fid, n)] = args.get(n, sym(n))
        if a.vararg:
            st.env[(fr.fid, a.vararg.arg)] = args.get(a.vararg.arg, mk('tuple', mk('star', sym('*' + a.vararg.arg))))
        if a.kwarg:
            st.env[(fr.fid, a.kwarg.arg)] = args.get(a.kwarg.arg, sym('**' + a.kwarg.arg))
        for c, b in assume:
            if not self.logic.assume(st, c, b):
                raise AnalysisBroken('contradictory assumption')
        saved = self.raised
        self.raised = []
        self.endless = []
        try:
            outs = self.exec_body(fi, st, fr)
            res = self.finish(outs)
        finally:
            self.raised = saved
        return res

    def finish(self, outs):
        res = []
        for o in outs:
            if o.kind == 'r':
                res.append(Path('return', o.val, o.st))
            elif o.kind == 'n':
                res.append(Path('return', NONE, o.st))
            elif o.kind == 'x':
                res.append(Path('raise', o.val, o.st))
        for st, exc in self.dedupe_raised(self.raised):
            res.append(Path('raise', exc, st))
        if not res and self.endless:
            # the function never ends: what each of its last loops does is on the trace
            for tr in self.endless:
                st = State()
                st.trace = tr
                res.append(Path('endless', NONE, st))
        self.npaths += len(res)
        if not res:
            raise AnalysisBroken('no path found')
        return res

    def exec_body(self, fi, st, fr):
        self.analysed.add(fi.key)
        self.stack.append(fi.key)
        try:
            if isinstance(fi.node, ast.Lambda):
                return [Out('r', s, v) for s, v in self.eval(fi.node.body, st, fr)]
            return self.exec_block(fi.node.body, [st], fr)
        finally:
            self.stack.pop()

    def run_module(self, modname, st=None, body=None):
        """Abstract execution of a module's top level (used for the bootstrap script)."""
        m = self.p.modules.get(modname)
        if m is None:
            raise AnalysisBroken('anchor vanished: module %s' % modname)
        st = st or State()
        fr = self.new_frame(None, None, m)
        saved = self.raised
        self.raised = []
        self.stack.append(modname + ':<module>')
        self.analysed.add(modname + ':<module>')
        try:
            outs = self.exec_block(body if body is not None else m.tree.body, [st], fr)
            return self.finish(outs)
        finally:
            self.stack.pop()
            self.raised = saved

    def new_frame(self, fi, parent, module=None):
        self.nfid += 1
        fr = Frame(self.nfid, fi, parent, module or fi.module)
        self.frames[fr.fid] = fr
        return fr

    # ================================================================== events / raising
    def site(self, node, fr):
        return (fr.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    def emit(self, st, ev):
        self.ncalls += 1
        r = ev.recv
        if r is not None and r.op != 'alloc' and (ev.kind in ('setitem', 'del') or ev.kind == 'call' and ev.name in SIZE_MUTATORS):
            # what was known about the size of this container is void
            gone = [c for c in st.facts if c.op == 'truth' and c.args[0] is r or c.op in ('lt', 'eq') and any(
                t.op == 'len' and t.args[0] is r or t.op == 'call' and t.args[0] == 'len' and t.args[2] == (r,) for t in subterms(c))]
            for c in gone:
                del st.facts[c]
        if self.policy.record(ev):
            st.trace = st.trace + (ev,)

    def event(self, kind, name, recv, args, kwargs, value, node, fr, st, raw=(), extra=None):
        return Event(kind, name, recv, args, kwargs, value, self.site(node, fr), st.locks,
                     self.stack[-1] if self.stack else None, raw, extra)

    def throw(self, st, exc):
        self.raised.append((st, exc))

    def throw_kind(self, st, spec, origin=None):
        star = spec.endswith('*')
        kind = canon(spec[:-1] if star else spec)
        self.throw(st, mk('exc', kind, star, (), origin))

    def may_raise(self, st, ev):
        for spec in self.policy.raises(ev, st):
            if spec == 'NORETURN':
                continue
            s2 = st.fork()
            xe = Event('raises', ev.name, ev.recv, ev.args, ev.kwargs, None, ev.site, ev.locks, ev.fn, ev.raw, spec)
            if self.policy.record(xe):
                s2.trace = s2.trace + (xe,)
            self.throw_kind(s2, spec, mk('origin', ev.value if ev.value is not None else ev.recv, ev.name,
                                         ev.fn or '?', ev.site[1]))

    # ================================================================== state sets
    def compact(self, outs):
        """Remove duplicate outcomes; merge those the policy cannot tell apart."""
        if len(outs) > 1:
            seen = set()
            res = []
            for o in outs:
                k = (o.kind, o.val, o.st.key())
                if k not in seen:
                    seen.add(k)
                    res.append(o)
            outs = res
        if len(outs) > 1 and self.policy.merge:
            outs = self.merge_outs(outs, True)
        if len(outs) > self.policy.max_states:
            outs = self.merge_outs(outs, False)
        if len(outs) > self.policy.max_states * 4:
            raise AnalysisBroken('too many states (%d) in %s' % (len(outs), self.stack[-1] if self.stack else '?'))
        return outs

    def merge_outs(self, outs, fine):
        groups = {}
        split = self.policy.split
        for o in outs:
            v = o.val
            st = o.st
            if o.kind == 'x':
                vk = v.args[:3] if v.op == 'exc' and not self.policy.keep_origin else v
            else:
                vk = skeleton(v)
            xk = tuple(e.args[:3] if e.op == 'exc' else e for e in st.excs)
            k = (o.kind, vk, st.trace, st.locks, xk, st.pend, st.ver)
            if fine:
                k += (frozenset((n, skeleton(v)) for n, v in st.env.items()),
                      frozenset((n, v) for n, v in st.heap.items() if v.op == 'const' or v is DELETED),
                      frozenset((c, b) for c, b in st.facts.items() if split(c)))
            groups.setdefault(k, []).append(o)
        res = []
        for k, os_ in groups.items():
            if len(os_) == 1:
                res.append(os_[0])
                continue
            self.merged += len(os_) - 1
            st = self.merge_states([o.st for o in os_])
            st.excs = tuple(self.merge_exc(es) for es in zip(*[o.st.excs for o in os_]))
            val = os_[0].val
            if os_[0].kind == 'r' and val is not None:
                val = phi([o.val for o in os_])
            elif os_[0].kind == 'x':
                val = self.merge_exc([o.val for o in os_])
            res.append(Out(os_[0].kind, st, val))
        return res

    def merge_exc(self, es):
        if all(e is es[0] for e in es):
            return es[0]
        return es[0]

    def merge_states(self, sts):
        a = sts[0].fork()
        keys = set()
        for s in sts:
            keys |= set(s.env)
        env = {}
        for k in keys:
            vs = [s.env.get(k) for s in sts]
            if any(v is None for v in vs):
                vs = [v for v in vs if v is not None]
            env[k] = phi(vs)
        a.env = env
        keys = set()
        for s in sts:
            keys |= set(s.heap)
        heap = {}
        for k in keys:
            vs = []
            for s in sts:
                v = s.heap.get(k)
                if v is None:
                    v = self.default_heap(k)
                if v not in vs:
                    vs.append(v)
            if len(vs) == 1:
                if vs[0] is not None:
                    heap[k] = vs[0]
            elif k[1] in ('seq', 'map'):
                vs = [v for v in vs if v is not None]
                heap[k] = vs[0] if len(vs) == 1 else self.merge_content(k, vs)
            elif DELETED in vs or None in vs:
                vs2 = [v for v in vs if v is not None and v is not DELETED]
                heap[k] = mk('maybe', *vs2) if vs2 else DELETED
            else:
                heap[k] = phi(vs)
        a.heap = heap
        f = dict(sts[0].facts)
        for s in sts[1:]:
            f = {k: v for k, v in f.items() if s.facts.get(k) == v}
        a.facts = f
        cnt = {}
        for s in sts:
            for k, v in s.cnt.items():
                cnt[k] = max(cnt.get(k, 0), v)
        a.cnt = cnt
        a.epoch = max(s.epoch for s in sts)
        return a

    def merge_content(self, k, vs):
        # keep common prefix, rest unknown (every alternative remembered for provenance)
        pre = []
        for items in zip(*[v.args for v in vs]):
            if all(x == items[0] for x in items):
                pre.append(items[0])
            else:
                break
        rest = []
        for v in vs:
            for x in v.args[len(pre):]:
                if x not in rest:
                    rest.append(x)
        if k[1] == 'seq':
            return mk('content', *(pre + [mk('star', mk('phi', *sorted(rest, key=lambda x: x.uid)))]))
        keep = []
        for (kk, vv) in rest:
            keep.append((kk, vv))
        return mk('content', *(pre + [(STARSTAR, mk('dict', *keep))]))

    def default_heap(self, k):
        base, kind, name = k
        if kind == 'a':
            return mk('attr', base, name)
        return None

    # ================================================================== statements
    def exec_block(self, body, states, fr):
        outs = []
        cur = list(states)
        dead = self.dead_names(fr)
        for s in body:
            if not cur:
                break
            nxt = []
            gone = dead.get(id(s), ()) if dead else ()
            for st in cur:
                self.steps += 1
                if self.steps > self.policy.max_steps:
                    raise AnalysisBroken('step budget exceeded in %s' % (self.stack[:3],))
                for o in self.exec_stmt(s, st, fr):
                    if o.kind == 'n':
                        for n in gone:
                            o.st.env.pop((fr.fid, n), None)
                        nxt.append(o)
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = self.compact(nxt)
            cur = [o.st for o in nxt]
        if len(outs) > 1:
            outs = self.compact(outs)
        return outs + [Out('n', st) for st in cur]

    def dead_names(self, fr):
        if fr.fi is None:
            return None
        r = self._dead.get(fr.fi.node)
        if r is None:
            r = self._dead[fr.fi.node] = dead_after(fr.fi.node)
        return r

    def exec_stmt(self, node, st, fr):
        m = getattr(self, 's_' + node.__class__.__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported statement %s at %s' % (node.__class__.__name__, self.site(node, fr)))
        return m(node, st, fr)

    def s_Expr(self, node, st, fr):
        if isinstance(node.value, ast.Constant):
            return [Out('n', st)]
        return [Out('n', s) for s, v in self.eval(node.value, st, fr)]

    def s_Pass(self, node, st, fr):
        return [Out('n', st)]

    def s_Return(self, node, st, fr):
        if node.value is None:
            return [Out('r', st, NONE)]
        return [Out('r', s, v) for s, v in self.eval(node.value, st, fr)]

    def s_Break(self, node, st, fr):
        return [Out('b', st)]

    def s_Continue(self, node, st, fr):
        return [Out('c', st)]

    def s_Global(self, node, st, fr):
        return [Out('n', st)]

    s_Nonlocal = s_Global

    def s_Assign(self, node, st, fr):
        res = []
        for s, v in self.eval(node.value, st, fr):
            cur = [s]
            for t in node.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(t, v, s2, fr)]
            res.extend(Out('n', s2) for s2 in cur)
        return res

    def s_AnnAssign(self, node, st, fr):
        if node.value is None:
            return [Out('n', st)]
        res = []
        for s, v in self.eval(node.value, st, fr):
            res.extend(Out('n', s2) for s2 in self.assign(node.target, v, s, fr))
        return res

    def s_AugAssign(self, node, st, fr):
        load = ast.copy_location(ast_load(node.target), node.target)
        res = []
        for s, old in self.eval(load, st, fr):
            for s2, v in self.eval(node.value, s, fr):
                if old.op == 'alloc' and old.args[0] == 'list' and isinstance(node.op, ast.Add):
                    self.list_extend(s2, old, v)
                    res.append(Out('n', s2))
                    continue
                nv = self.binop(OPS[node.op.__class__], old, v, s2, node, fr)
                res.extend(Out('n', s3) for s3 in self.assign(node.target, nv, s2, fr))
        return res

    def s_If(self, node, st, fr):
        outs = []
        for s, b in self.cond(node.test, st, fr):
            outs.extend(self.exec_block(node.body if b else node.orelse, [s], fr))
        return self.compact(outs) if len(outs) > 1 else outs

    def s_Assert(self, node, st, fr):
        outs = []
        for s, b in self.cond(node.test, st, fr):
            if b:
                outs.append(Out('n', s))
            else:
                self.emit(s, self.event('raise', 'AssertionError', None, (), (), None, node, fr, s))
                self.throw_kind(s, 'AssertionError')
        return outs

    def s_Raise(self, node, st, fr):
        if node.exc is None:
            exc = st.excs[-1] if st.excs else mk('exc', 'RuntimeError', False, (), None)
            self.emit(st, self.event('raise', 'reraise', None, (exc,), (), None, node, fr, st))
            self.throw(st, exc)
            return []
        for s, v in self.eval(node.exc, st, fr):
            self.emit(s, self.event('raise', self.exc_kind(v)[0], None, (self.freeze(s, v),), (), None, node, fr, s))
            self.throw(s, self.to_exc(v))
        return []

    def exc_kind(self, v):
        if v.op == 'exc':
            return v.args[0], v.args[1]
        if v.op == 'cls':
            return v.args[0], False
        if v.op == 'ext':
            return canon(v.args[0]), False
        if v.op == 'obj':
            return v.args[0], False
        if v.op == 'call' and looks_like_class(v.args[0]):
            return canon(v.args[0]), False
        return EXC_TOP, True

    def to_exc(self, v):
        if v.op == 'exc':
            return v
        k, star = self.exc_kind(v)
        return mk('exc', k, star, (), v)

    def s_Delete(self, node, st, fr):
        cur = [st]
        for t in node.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.env.pop(self.var_key(t.id, fr), None)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s, fr):
                        s2.heap[(b, 'a', t.attr)] = DELETED
                        self.emit(s2, self.event('delattr', t.attr, b, (), (), None, t, fr, s2))
                        nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for s2, (b, k) in self.eval_seq([t.value, t.slice], s, fr):
                        ev = self.event('del', 'del', b, (self.freeze(s2, k),), (), None, t, fr, s2)
                        if self.logic._in(s2, k, b) is not True:
                            self.may_raise(s2, ev)
                        self.emit(s2, ev)
                        self.store_item(s2, b, k, DELETED)
                        nxt.append(s2)
                else:
                    raise AnalysisBroken('unsupported del target')
            cur = nxt
        return [Out('n', s) for s in cur]

    def s_Import(self, node, st, fr):
        for n, b in self.p.import_bindings(fr.module, node):
            full = b[1]
            ev = self.event('import', node.names[0].name, None, (), (), None, node, fr, st)
            self.emit(st, ev)
            self.may_raise(st, ev)
            v = mk('mod', full) if full in self.p.modules else ext(full)
            st.env[self.var_key(n, fr)] = v
        return [Out('n', st)]

    def s_ImportFrom(self, node, st, fr):
        for n, b in self.p.import_bindings(fr.module, node):
            if b[0] == 'star':
                ev = self.event('import', b[1], None, (), (), None, node, fr, st)
                self.emit(st, ev)
                self.may_raise(st, ev)
                continue
            ev = self.event('import', b[1] + '.' + b[2] if (b[1] + '.' + b[2]) in self.p.modules else b[1],
                            None, (), (), None, node, fr, st)
            self.emit(st, ev)
            self.may_raise(st, ev)
            if b[1] in self.p.modules:
                r = self.p.resolve(b[1], b[2]) or ('var', b[1], b[2])
                v = self.binding_value(r, st)
            elif b[1] + '.' + b[2] in self.p.modules:
                v = mk('mod', b[1] + '.' + b[2])
            else:
                v = ext(b[1] + '.' + b[2])
            st.env[self.var_key(n, fr)] = v
        return [Out('n', st)]

    def s_FunctionDef(self, node, st, fr):
        if fr.fi is None:
            # module level function: resolved through the module namespace
            key = '%s:%s' % (fr.module.name, node.name)
            if key in self.p.funcs and self.p.funcs[key].node is node:
                fv = mk('func', key, None)
                st.env[self.var_key(node.name, fr)] = fv
                outs = [st]
                for d in reversed(node.decorator_list):
                    if dotted(d) == 'atexit.register':
                        outs = [s3 for s in outs for s2, dv in self.eval(d, s, fr) for s3, _ in self.call(s2, dv, [fv], [], node, fr)]
                return [Out('n', s) for s in outs]
        fi = self.p.nested_func(fr.fi or self.module_fi(fr), node)
        fr.closure = True
        fv = mk('func', fi.key, fr.fid)
        self.bind_defaults(st, fv, node.args, fr)
        if node.decorator_list and not fi.is_ctxmgr:
            v = fv
            for d in reversed(node.decorator_list):
                nm = dotted(d.func if isinstance(d, ast.Call) else d)
                if nm and nm.split('.')[-1] in ('wraps', 'staticmethod'):
                    continue
                v = mk('decorated', v)
            fv = v
        st.env[self.var_key(node.name, fr)] = fv
        return [Out('n', st)]

    def module_fi(self, fr):
        class _M:
            key = fr.module.name + ':<module>'
            module = fr.module
            cls = None
        return _M

    def bind_defaults(self, st, fv, a, fr):
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            r = self.eval(d, st.fork(), fr)
            if r:
                st.heap[(fv, 'd', p.arg)] = r[0][1]
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                r = self.eval(d, st.fork(), fr)
                if r:
                    st.heap[(fv, 'd', p.arg)] = r[0][1]

    def s_ClassDef(self, node, st, fr):
        if fr.fi is None:
            key = '%s:%s' % (fr.module.name, node.name)
            st.env[self.var_key(node.name, fr)] = mk('cls', key)
            return [Out('n', st)]
        key = '%s.<locals>.%s' % (fr.fi.key, node.name)
        ci = self.p.classes.get(key)
        if ci is None or ci.node is not node:
            ci = self.p._add_class(fr.module, node, key.split(':', 1)[1])
            ci.bases = [self.p._resolve_base(ci, b) for b in ci.node.bases]
        ci.frame = fr.fid
        fr.closure = True
        for m in ci.methods.values():
            m.parent_fid = fr.fid
        st.env[self.var_key(node.name, fr)] = mk('cls', ci.key)
        return [Out('n', st)]

    # ---- try ------------------------------------------------------------------------------
    def s_Try(self, node, st, fr):
        outer = self.raised
        self.raised = []
        outs = self.exec_block(node.body, [st], fr)
        raised = self.raised
        self.raised = []
        res = []
        normal = [o for o in outs if o.kind == 'n']
        for o in outs:
            if o.kind == 'x':
                raised.append((o.st, o.val))
            elif o.kind != 'n':
                res.append(o)
        if node.orelse:
            res.extend(self.exec_block(node.orelse, [o.st for o in normal], fr))
        else:
            res.extend(normal)
        # raised inside else / handlers: not handled here
        outer.extend(x for x in raised + self.raised if x[1].args[0] == 'os._exit')
        self.raised = [x for x in self.raised if x[1].args[0] != 'os._exit']
        handled = self.dedupe_raised([x for x in raised if x[1].args[0] != 'os._exit'])
        for s, exc in handled:
            res.extend(self.handle(node.handlers, s, exc, fr))
        outer.extend(x for x in self.raised if x[1].args[0] == 'os._exit')
        unhandled = [x for x in self.raised if x[1].args[0] != 'os._exit']
        self.raised = outer
        if not node.finalbody:
            outer.extend(unhandled)
            return self.compact(res) if len(res) > 1 else res
        final = []
        for o in self.compact(res) if len(res) > 1 else res:
            for f in self.exec_block(node.finalbody, [o.st], fr):
                final.append(Out(o.kind, f.st, o.val) if f.kind == 'n' else f)
        for s, exc in self.dedupe_raised(unhandled):
            s.excs = s.excs + (exc,)
            for f in self.exec_block(node.finalbody, [s], fr):
                if f.kind == 'n':
                    f.st.excs = f.st.excs[:-1]
                    outer.append((f.st, exc))
                else:
                    f.st.excs = f.st.excs[:-1]
                    final.append(f)
        return self.compact(final) if len(final) > 1 else final

    s_TryStar = s_Try

    def dedupe_raised(self, raised):
        if len(raised) < 2:
            return raised
        outs = self.compact([Out('x', s, e) for s, e in raised])
        return [(o.st, o.val) for o in outs]

    def handle(self, handlers, st, exc, fr):
        """Run the matching handlers; unmatched exceptions go to self.raised."""
        cur = [(st, exc)]
        res = []
        for h in handlers:
            nxt = []
            for s, e in cur:
                if h.type is None:
                    res.extend(self.run_handler(h, s, e, fr))
                    continue
                names = []
                types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for s1, tv in self.eval_seq(types, s, fr)[:1]:
                    s = s1
                    flat = []
                    for t in tv:
                        c = seq_content(s, t)
                        flat.extend(c if c is not None else [t])
                    for t in flat:
                        names.append(canon(t.args[0]) if t.op in ('cls', 'ext') else None)
                rest = e
                done = False
                for n in names:
                    if n is None:
                        # unknown class: may match
                        res.extend(self.run_handler(h, s.fork(), rest, fr))
                        continue
                    kind, star, excl, origin = rest.args
                    m = self.h.match(kind, star, excl, n)
                    if m == 'yes':
                        res.extend(self.run_handler(h, s, rest, fr))
                        done = True
                        break
                    if m == 'maybe':
                        res.extend(self.run_handler(h, s.fork(), mk('exc', n, True, excl, origin), fr))
                        rest = mk('exc', kind, star, tuple(sorted(set(excl) | {n})), origin)
                if not done:
                    nxt.append((s, rest))
            cur = nxt
        self.raised.extend(cur)
        return res

    def run_handler(self, h, st, exc, fr):
        st.excs = st.excs + (exc,)
        if h.name:
            st.env[self.var_key(h.name, fr)] = exc
        self.emit(st, self.event('caught', exc.args[0], None, (exc,), (), None, h, fr, st))
        mark = len(self.raised)
        outs = self.exec_block(h.body, [st], fr)
        for o in outs:
            o.st.excs = o.st.excs[:-1]
        for i in range(mark, len(self.raised)):
            self.raised[i][0].excs = self.raised[i][0].excs[:-1]
        return outs

    # ---- with -----------------------------------------------------------------------------
    def s_With(self, node, st, fr):
        return self.with_items(node.items, 0, node, st, fr)

    def with_items(self, items, i, node, st, fr):
        if i == len(items):
            return self.exec_block(node.body, [st], fr)
        it = items[i]
        res = []
        for s, v in self.eval(it.context_expr, st, fr):
            res.extend(self.with_one(v, it, lambda s2: self.with_items(items, i + 1, node, s2, fr), s, fr, node))
        return res

    def with_one(self, v, it, cont, st, fr, node):
        v = subst(st, v)
        # generator based context managers
        if v.op == 'gen' and self.p.funcs[v.args[0].args[0]].is_ctxmgr:
            return self.with_gen(v, it, cont, st, fr)
        tn = self.type_of(st, v)
        if tn and not tn.startswith('ext:'):
            en = self.p.find_method(tn, '__enter__')
            ex = self.p.find_method(tn, '__exit__')
            if en and ex:
                return self.with_obj(v, en, ex, it, cont, st, fr, node)
        if v.op == 'call' and v.args[0] == 'contextlib.suppress':
            outer = self.raised
            self.raised = []
            outs = cont(st)
            raised = self.raised
            self.raised = outer
            for s, e in raised + [(o.st, o.val) for o in outs if o.kind == 'x']:
                left = e
                for t in v.args[2]:
                    if t.op not in ('cls', 'ext'):
                        continue
                    n = canon(t.args[0])
                    m = self.h.match(left.args[0], left.args[1], left.args[2], n)
                    if m != 'no':
                        s2 = s.fork()
                        self.emit(s2, self.event('caught', left.args[0], None, (left,), (), None, node, fr, s2))
                        outs.append(Out('n', s2))
                        if m == 'yes':
                            left = None
                            break
                        left = mk('exc', left.args[0], left.args[1], tuple(sorted(set(left.args[2]) | {n})), left.args[3])
                if left is not None:
                    self.raised.append((s, left))
            return [o for o in outs if o.kind != 'x']
        closing = v.op == 'call' and v.args[0] == 'contextlib.closing'
        stackmgr = v.op == 'call' and v.args[0] == 'contextlib.ExitStack'
        self.emit(st, self.event('enter', 'with', v, (), (), None, node, fr, st))
        is_lock = not closing and not stackmgr
        if is_lock:
            st.locks = st.locks + (v,)
            st.epoch += 1
        val = v.args[2][0] if closing and v.args[2] else v
        cur = [st]
        if it.optional_vars is not None:
            cur = self.assign(it.optional_vars, val, st, fr)
        outer = self.raised
        self.raised = []
        outs = []
        for s in cur:
            outs.extend(cont(s))
        raised = self.raised
        self.raised = outer

        def leave(s):
            if is_lock:
                s.locks = s.locks[:-1]
                s.epoch += 1
            if closing:
                self.emit(s, self.event('call', '.close', val, (), (), None, node, fr, s))
            if stackmgr:
                cbs = s.heap.get((v, 'cbs', None))
                ss = [s]
                for f, a, k in reversed(cbs.args if cbs else ()):
                    ss = [s3 for s2 in ss for s3, _ in self.call(s2, f, list(a), list(k), node, fr)]
                return ss
            self.emit(s, self.event('exit', 'with', v, (), (), None, node, fr, s))
            return [s]
        res = []
        for o in outs:
            for s in leave(o.st):
                res.append(Out(o.kind, s, o.val))
        for s, e in raised:
            for s2 in leave(s):
                self.raised.append((s2, e))
        return res

    def with_obj(self, v, en, ex, it, cont, st, fr, node):
        res = []
        for s, val in self.call(st, mk('bound', mk('func', en.key, None), v), [], [], node, fr):
            cur = [s]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, val, s, fr)
            outer = self.raised
            self.raised = []
            outs = []
            for s2 in cur:
                outs.extend(cont(s2))
            raised = self.raised
            self.raised = outer
            exb = mk('bound', mk('func', ex.key, None), v)
            for o in outs:
                if o.kind == 'x':
                    raised.append((o.st, o.val))
                    continue
                for s2, _ in self.call(o.st, exb, [NONE, NONE, NONE], [], node, fr):
                    res.append(Out(o.kind, s2, o.val))
            for s2, e in raised:
                s2.excs = s2.excs + (e,)
                for s3, r in self.call(s2, exb, [mk('exctype', e), e, mk('exctb', e)], [], node, fr):
                    s3.excs = s3.excs[:-1]
                    for s4, b in self.branch(s3, r):
                        if b:
                            res.append(Out('n', s4))
                        else:
                            self.raised.append((s4, e))
        return res

    def with_gen(self, g, it, cont, st, fr):
        """with-statement over a @contextmanager generator function of the project."""
        res = []

        def on_yield(s, val):
            """Returns [(state, value-sent)] to resume the generator; raised go to self.raised."""
            cur = [s]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, val, s, fr)
            out = []
            for s2 in cur:
                for o in cont(s2):
                    if o.kind == 'x':
                        o.st.pend = o.st.pend + (('n', None),)
                        self.raised.append((o.st, o.val))
                    else:
                        o.st.pend = o.st.pend + ((o.kind, o.val),)
                        out.append((o.st, NONE))
            return out
        outer = self.raised
        self.raised = []
        handlers = self.yield_handlers
        # exceptions raised by the body surface at the yield; mark their pending outcome
        def handler(s, val):
            mark = len(self.raised)
            r = on_yield(s, val)
            for i in range(mark, len(self.raised)):
                s2, e = self.raised[i]
                if len(s2.pend) == len(s.pend):
                    s2.pend = s2.pend + (('n', None),)
            return r
        depth = len(st.pend)
        self.yield_handlers = handlers + [handler]
        try:
            outs = self.run_gen(g, st, fr)
        finally:
            self.yield_handlers = handlers
        raised = self.raised
        self.raised = outer
        for o in outs:
            if o.kind == 'x':
                raised.append((o.st, o.val))
                continue
            if len(o.st.pend) > depth:
                k, v = o.st.pend[-1]
                o.st.pend = o.st.pend[:depth]
                res.append(Out(k, o.st, v))
            else:
                # generator did not yield
                self.throw_kind(o.st, 'RuntimeError')
        for s, e in raised:
            s.pend = s.pend[:depth]
            self.raised.append((s, e))
        return res

    def run_gen(self, g, st, fr):
        """Execute the body of a generator value with the current yield handler installed."""
        fv, frozen = g.args[0], g.args[1]
        args, kwargs = self.gen_args[g]
        fi = self.p.funcs[fv.args[0]]
        f2 = self.bind(fi, fv, st, args, kwargs, fr)
        if f2 is None:
            return []
        outs = []
        for s, fr2 in f2:
            os_ = self.exec_body(fi, s, fr2)
            for o in os_:
                if o.kind in ('r', 'n'):
                    self.drop_frame(o.st, fr2)
                outs.append(o)
        return outs

    gen_args = {}

    # ---- loops ------------------------------------------------------------------------------
    def counted(self, node, st, fr):
        """A loop while a local string or bytes, which is known, is not empty: is it known to be (not) empty?"""
        t = node.test
        neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
        t = t.operand if neg else t
        if not isinstance(t, ast.Name) or node.orelse:
            return None
        v = st.env.get(self.var_key(t.id, fr))
        v = subst(st, v) if v is not None else None
        if v is None or not is_const(v) or not isinstance(v.args[1], (str, bytes)):
            return None
        return bool(v.args[1]) != neg

    def s_While(self, node, st, fr):
        k = self.counted(node, st, fr)
        if k is not None:
            res, cur = [], [st]
            for _ in range(12):
                nxt = []
                for s in cur:
                    k = self.counted(node, s, fr)
                    if k is False:
                        res.append(Out('n', s))
                    elif k is None:
                        res.extend(self.while_loop(node, s, fr))
                    else:
                        for o in self.exec_block(node.body, [s], fr):
                            if o.kind in ('n', 'c'):
                                nxt.append(o.st)
                            else:
                                res.append(Out('n', o.st) if o.kind == 'b' else o)
                cur = nxt
            for s in cur:
                res.extend(self.while_loop(node, s, fr))
            return res
        return self.while_loop(node, st, fr)

    def while_loop(self, node, st, fr):
        def head(s):
            return [(s2, 'in' if b else 'out') for s2, b in self.cond(node.test, s, fr)]
        return self.loop(node, head, node.body, node.orelse, st, fr)

    def iter_until(self, node):
        """for x in iter(f, sentinel): ... as a while loop."""
        r = self.__dict__.setdefault('_iter_until', {}).get(id(node))
        if r is None:
            f, s = node.iter.args
            test = ast.Compare(ast.Name('.next', ast.Load()), [ast.Is() if isinstance(s, ast.Constant) and s.value is None else ast.Eq()], [s])
            body = [ast.Assign([ast.Name('.next', ast.Store())], ast.Call(f, [], [])), ast.If(test, [ast.Break()], []), ast.Assign([node.target], ast.Name('.next', ast.Load()))]
            r = ast.While(ast.Constant(True), body + node.body, [])
            for b in body + [r]:
                ast.copy_location(b, node)
                for n in ast.walk(b) if b is not r else [r.test]:
                    if not hasattr(n, 'lineno'):
                        ast.copy_location(n, node)
            self._iter_until[id(node)] = r
        return r

    def s_For(self, node, st, fr):
        it = node.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'iter' and len(it.args) == 2 and not it.keywords and not node.orelse \
                and not any(isinstance(a, ast.Starred) for a in it.args) and 'iter' not in st.env:
            return self.exec_stmt(self.iter_until(node), st, fr)
        res = []
        for s, it in self.eval(node.iter, st, fr):
            res.extend(self.for_over(node, it, s, fr))
        return res

    s_AsyncFor = s_For

    def for_over(self, node, it, st, fr):
        it = subst(st, it)
        if it.op == 'gen':
            return self.for_gen(node, it, st, fr)
        elems = self.iter_elems(st, it)
        if elems is not None and len(elems) <= 64 and not any(is_star(x) for x in elems):
            cur = [st]
            res = []
            for x in elems:
                nxt = []
                for s in cur:
                    for s2 in self.assign(node.target, x, s, fr):
                        for o in self.exec_block(node.body, [s2], fr):
                            if o.kind in ('n', 'c'):
                                nxt.append(Out('n', o.st))
                            elif o.kind == 'b':
                                res.append(Out('n', o.st))
                            else:
                                res.append(o)
                if len(nxt) > 1:
                    nxt = self.compact(nxt)
                cur = [o.st for o in nxt]
            if node.orelse:
                res.extend(self.exec_block(node.orelse, cur, fr))
            else:
                res.extend(Out('n', s) for s in cur)
            return self.compact(res) if len(res) > 1 else res

        def head(s):
            s2 = s.fork()
            r = [(s2, 'out')]
            e = self.elem_of(s, it)
            fil = self.filter_of(s, it)
            if fil is not None and len(fil.args[0]) == 1:
                for c, b in fil.args[0][0]:
                    s.facts.setdefault(c, b)
            for s3 in self.assign(node.target, e, s, fr):
                r.append((s3, 'in'))
            return r
        return self.loop(node, head, node.body, node.orelse, st, fr, it=it)

    def filter_of(self, st, it):
        """The condition under which elements got into an iterable built by a comprehension."""
        if it.op == 'call' and it.args[0] in ('list', 'tuple', 'sorted', 'iter', 'reversed', 'set') and it.args[2]:
            return self.filter_of(st, it.args[2][0])
        if it.op in ('list', 'tuple', 'alloc', 'set'):
            c = seq_content(st, it)
            if c is not None and len(c) == 1 and is_star(c[0]):
                return self.filter_of(st, c[0].args[0])
        if it.op == 'comp' and getattr(it.args[2], 'op', None) == 'filter':
            return it.args[2]
        return None

    def elem_of(self, st, it):
        if it.op == 'items':
            k = mk('key', it.args[0])
            return mk('tuple', k, mk('item', it.args[0], k))
        if it.op == 'values':
            return mk('item', it.args[0], mk('key', it.args[0]))
        if it.op == 'keys':
            return mk('key', it.args[0])
        if it.op == 'call' and it.args[0] in ('list', 'tuple', 'sorted', 'iter', 'reversed', 'set') and it.args[2]:
            return self.elem_of(st, it.args[2][0])
        if it.op == 'call' and it.args[0] == 'enumerate' and it.args[2]:
            return mk('tuple', mk('index', it.args[2][0]), self.elem_of(st, it.args[2][0]))
        if it.op == 'call' and it.args[0] == 'zip':
            return mk('tuple', *[self.elem_of(st, x) for x in it.args[2]])
        if it.op == 'comp':
            return it.args[0]
        if it.op == 'many':
            return phi([self.elem_of(st, x) for x in it.args])
        if it.op in ('list', 'tuple', 'alloc', 'set'):
            c = seq_content(st, it)
            if c is not None and c:
                parts = []
                for x in c:
                    parts.append(self.elem_of(st, x.args[0]) if is_star(x) else x)
                return phi(parts)
        if it.op == 'phi':
            return phi([self.elem_of(st, x) for x in it.args])
        if it.op == 'bin' and it.args[0] == '+':
            return phi([self.elem_of(st, it.args[1]), self.elem_of(st, it.args[2])])
        return mk('elem', self.freeze(st, it))

    def iter_elems(self, st, it):
        """Known element list of an iterable, or None."""
        c = seq_content(st, it)
        if c is not None:
            out = []
            for x in c:
                if is_star(x):
                    e = self.iter_elems(st, x.args[0])
                    if e is None:
                        return None
                    out.extend(e)
                else:
                    out.append(x)
            return out
        m = map_content(st, it)
        if m is not None:
            return None if any(k is STARSTAR for k, v in m) else [k for k, v in m]
        if it.op in ('items', 'keys', 'values'):
            m = map_content(st, it.args[0])
            if m is None or any(k is STARSTAR for k, v in m):
                return None
            return [mk('tuple', k, v) if it.op == 'items' else (k if it.op == 'keys' else v) for k, v in m]
        if it.op == 'call' and it.args[0] == 'range' and all(is_const(x) for x in it.args[2]) and it.args[2]:
            r = range(*[x.args[1] for x in it.args[2]])
            return [const(i) for i in r] if len(r) <= 64 else None
        if it.op == 'call' and it.args[0] in ('list', 'tuple', 'iter', 'sorted') and len(it.args[2]) == 1 and not it.args[3]:
            e = self.iter_elems(st, it.args[2][0])
            if it.args[0] == 'sorted' and e is not None and len(e) > 1 and all(is_const(x) for x in e):
                try:
                    return [const(v) for v in sorted(x.args[1] for x in e)]
                except TypeError:
                    return e
            return e
        if it.op == 'call' and it.args[0] == 'enumerate' and len(it.args[2]) == 1:
            e = self.iter_elems(st, it.args[2][0])
            return None if e is None else [mk('tuple', const(i), x) for i, x in enumerate(e)]
        if it.op == 'call' and it.args[0] == 'zip':
            es = [self.iter_elems(st, x) for x in it.args[2]]
            return None if any(e is None for e in es) else [mk('tuple', *xs) for xs in zip(*es)]
        if it.op == 'call' and it.args[0] == 'reversed' and len(it.args[2]) == 1:
            e = self.iter_elems(st, it.args[2][0])
            return None if e is None else list(reversed(e))
        return None

    def for_gen(self, node, g, st, fr):
        """for-loop over a generator function of the project: inline the generator, running the
        loop body at each yield."""
        res = []
        handlers = self.yield_handlers

        def handler(s, val):
            out = []
            for s2 in self.assign(node.target, val, s, fr):
                for o in self.exec_block(node.body, [s2], fr):
                    if o.kind in ('n', 'c'):
                        out.append((o.st, NONE))
                    elif o.kind == 'b':
                        res.append(Out('n', o.st))
                    else:
                        res.append(o)
            return out
        self.yield_handlers = handlers + [handler]
        try:
            outs = self.run_gen(g, st, fr)
        finally:
            self.yield_handlers = handlers
        for o in outs:
            if o.kind == 'x':
                res.append(o)
            elif node.orelse:
                res.extend(self.exec_block(node.orelse, [o.st], fr))
            else:
                res.append(Out('n', o.st))
        return self.compact(res) if len(res) > 1 else res

    def nonfinal(self, base, name):
        """Is this field assigned outside its class's constructor (so that it can change between
        two looks at it)?"""
        k = name
        r = self._final.get(k)
        if r is None:
            r = False
            for mod, fn, n in self.p.attr_stores.get(name, []):
                if fn is None or fn.name not in ('__init__', '_init_state', '__setstate__'):
                    r = True
            self._final[k] = r
        return r

    def loop(self, node, head, body, orelse, st, fr, it=None):
        site = self.site(node, fr)
        widened = {}        # ('e', key) / ('h', key) -> mu term
        base = st
        pre = st.trace
        for rnd in range(8):
            H = base.fork()
            H.trace = ()
            H.ver = (site, len(self.loop_stack))
            for (w, k), t in widened.items():
                if w == 'e':
                    H.env[k] = t
                elif t is None:
                    H.heap.pop(k, None)
                else:
                    H.heap[k] = t
            outer = self.raised
            self.raised = []
            n0 = self.nfid
            self.loop_stack.append(site)
            heads = head(H.fork())
            ins = [s for s, w in heads if w == 'in']
            exits = [s for s, w in heads if w == 'out']
            outs = self.exec_block(body, ins, fr) if ins else []
            self.loop_stack.pop()
            raised = self.raised
            self.raised = outer
            new = False
            for o in outs:
                if o.kind not in ('n', 'c'):
                    continue
                for k, v in o.st.env.items():
                    if k[0] > n0:
                        continue
                    if H.env.get(k) is not v and k in H.env and ('e', k) not in widened:
                        widened[('e', k)] = mk('mu', site, '%d.%s' % (k[0], k[1]))
                        new = True
                for k, v in o.st.heap.items():
                    if H.heap.get(k) is not v and ('h', k) not in widened:
                        if k[1] in ('seq', 'map'):
                            if k[0] not in (b for (b, _, _) in H.heap):
                                continue        # object created inside the loop
                            hv = H.heap.get(k)
                            widened[('h', k)] = self.widen_content(k, hv, v, site)
                            new = True
                        elif k[1] == 'a':
                            if k[0].op == 'obj' and k[0].args[1] != 'sym' and not any(x[0] is k[0] for x in H.heap):
                                continue
                            widened[('h', k)] = mk('mu', site, mk('attr', k[0], k[2]))
                            new = True
                        elif k[1] == 'i':
                            if k not in H.heap:
                                continue        # unknown in the next iteration anyway
                            widened[('h', k)] = mk('mu', site, mk('item', k[0], k[2]))
                            new = True
                        else:
                            pass
            if not new:
                break
        else:
            raise AnalysisBroken('loop at %s does not stabilise' % (site,))
        rotated = []
        if isinstance(node, ast.While) and exits and not any(isinstance(n, (ast.Call, ast.Await, ast.NamedExpr, ast.Yield)) for n in ast.walk(node.test)):
            # a loop that is certainly entered: what ends it is the turn after which its condition no longer holds
            raised0, self.raised = self.raised, []
            b0 = base.fork()
            b0.trace = ()
            if all(w == 'in' for _, w in head(b0)):
                nouts = []
                for o in outs:
                    if o.kind not in ('n', 'c'):
                        nouts.append(o)
                        continue
                    for s, w in head(o.st.fork()):
                        if w == 'in':
                            nouts.append(Out(o.kind, s))
                        else:
                            rotated.append(s)
                if rotated:
                    outs, exits = nouts, []
            if self.raised:
                rotated = []
            self.raised = raised0
        iters = []
        seen = {}
        split = self.policy.split
        for o in outs:
            if o.kind in ('n', 'c'):
                key = frozenset((c, b) for c, b in o.st.facts.items() if base.facts.get(c) is not b and split(c)) if o.st.facts else frozenset()
                itn = Iteration('n', o.st.trace, o.st.facts, o.st, key)
                if itn not in seen:
                    seen[itn] = itn
                    iters.append(itn)
                else:
                    old = seen[itn]
                    old.facts = {c: b for c, b in old.facts.items() if itn.facts.get(c) is b}
        interesting = any(i.trace for i in iters)
        L = None
        if interesting or getattr(self.policy, 'want_loops', False):
            L = Event('loop', 'loop', self.freeze_iter(base, it) if it is not None else None, (), (), None, site, base.locks, self.stack[-1] if self.stack else None,
                      (), tuple(iters))
        res = []
        prefixes = [pre + (L,)] if L is not None else [pre]
        if L is not None and not exits and not rotated and not raised and not any(o.kind in ('b', 'r', 'x') for o in outs):
            self.endless.append(prefixes[0])

        def fix(s, left=None):
            if left is not None and L is not None:
                # this path leaves the loop before its end
                ev = Event('break', left, L.recv, (), (), None, site, base.locks, self.stack[-1] if self.stack else None)
                if self.policy.record(ev):
                    s.trace = s.trace + (ev,)
            s.trace = prefixes[0] + s.trace
            s.ver = base.ver
            return s
        for o in outs:
            if o.kind == 'b':
                res.append(Out('n', fix(o.st, 'break')))
            elif o.kind in ('r', 'x'):
                res.append(Out(o.kind, fix(o.st, 'return'), o.val))
        for s, e in raised:
            self.raised.append((fix(s, 'raise'), e))
        ex = [fix(s) for s in exits] + [fix(s, 'condition') for s in rotated]
        if orelse:
            res.extend(self.exec_block(orelse, ex, fr))
        else:
            res.extend(Out('n', s) for s in ex)
        return self.compact(res) if len(res) > 1 else res

    def widen_content(self, k, hv, v, site):
        if hv is None:
            return None
        pre = []
        for a, b in zip(hv.args, v.args):
            if a == b:
                pre.append(a)
            else:
                break
        added = [x for x in v.args if x not in hv.args]
        if k[1] == 'seq':
            parts = []
            for x in list(hv.args[len(pre):]) + added:
                parts.append(x.args[0] if is_star(x) and x.args[0].op == 'many' else x)
            flat = []
            for x in parts:
                for y in (x.args if x.op == 'many' else (x,)):
                    if y not in flat:
                        flat.append(y)
            return mk('content', *(pre + [mk('star', mk('many', *flat))]))
        vals = []
        for kk, vv in list(hv.args[len(pre):]) + added:
            if kk is STARSTAR and vv.op == 'manymap':
                vals.extend(x for x in vv.args[1:] if x not in vals)
            elif kk is STARSTAR and vv.op == 'dict' and all(k2 is not STARSTAR for k2, _ in vv.args):
                vals.extend(x for _, x in vv.args if x not in vals)
            elif kk is STARSTAR:
                return mk('content', *(pre + [(STARSTAR, mk('mu', site, k[0]))]))
            elif vv not in vals:
                vals.append(vv)
        return mk('content', *(pre + [(STARSTAR, mk('manymap', site, *vals))]))

    def s_Match(self, node, st, fr):
        res = []
        for s, v in self.eval(node.subject, st, fr):
            cur = [s]
            for case in node.cases:
                nxt = []
                for s1 in cur:
                    for s2, ok in self.pattern(case.pattern, v, s1, fr):
                        if not ok:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, b in self.cond(case.guard, s2, fr):
                                if b:
                                    res.extend(self.exec_block(case.body, [s3], fr))
                                else:
                                    nxt.append(s3)
                        else:
                            res.extend(self.exec_block(case.body, [s2], fr))
                cur = nxt
            res.extend(Out('n', s1) for s1 in cur)
        return self.compact(res) if len(res) > 1 else res

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, c in self.eval(p.value, st, fr):
                out.extend(self.branch(s, eq_atom(subst(s, v), subst(s, c))))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, same_atom(v, const(p.value)))
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.env[self.var_key(p.name, fr)] = v
                return [(st, True)]
            out = []
            for s, ok in self.pattern(p.pattern, v, st, fr):
                if ok and p.name:
                    s.env[self.var_key(p.name, fr)] = v
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, ok in self.pattern(q, v, s, fr):
                        (out if ok else nxt).append((s2, True) if ok else s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for s, c in self.eval(p.cls, st, fr):
                out.extend(self.branch(s, mk('isinst', v, c)))
            return out
        raise AnalysisBroken('unsupported match pattern at %s' % (self.site(p, fr),))

    # ================================================================== assignment
    def var_key(self, name, fr):
        f = fr
        if f.fi is None:
            return (f.fid, name)
        if name in f.fi.globals_:
            return ('g', f.module.name, name)
        if name in f.fi.nonlocals:
            q = f.parent
            while q is not None:
                if q.fi is not None and name in q.fi.locals:
                    return (q.fid, name)
                q = q.parent
        return (f.fid, name)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            k = self.var_key(t.id, fr)
            if k[0] == 'g':
                self.write_attr(st, mk('mod', k[1]), k[2], v, t, fr)
                return [st]
            st.env[k] = v
            if fr.fi is None:
                self.emit(st, self.event('write', t.id, mk('mod', fr.module.name), (), (), v, t, fr, st))
            return [st]
        if isinstance(t, ast.Attribute):
            res = []
            for s, b in self.eval(t.value, st, fr):
                res.extend(self.set_attr(s, subst(s, b), t.attr, v, t, fr))
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for s, (b, k) in self.eval_seq([t.value, t.slice], st, fr):
                res.extend(self.set_item(s, subst(s, b), subst(s, k), v, t, fr))
            return res
        if isinstance(t, (ast.Tuple, ast.List)):
            c = seq_content(st, v)
            if c is not None and not any(is_star(x) for x in c) and not any(isinstance(e, ast.Starred) for e in t.elts):
                if len(c) != len(t.elts):
                    self.throw_kind(st, 'ValueError')
                    return []
                vals = list(c)
            elif c is not None and not any(is_star(x) for x in c) and sum(isinstance(e, ast.Starred) for e in t.elts) == 1 and len(c) >= len(t.elts) - 1:
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                j = len(c) - (len(t.elts) - 1 - i)
                vals = list(c[:i]) + [self.new_list(st, list(c[i:j]), t, fr)] + list(c[j:])
            elif v.op == 'phi' and not any(isinstance(e, ast.Starred) for e in t.elts) and \
                    all(x is not None and len(x) == len(t.elts) and not any(is_star(y) for y in x) for x in [seq_content(st, a) for a in v.args]):
                vals = [phi(xs) for xs in zip(*[seq_content(st, a) for a in v.args])]
            elif v.op in ('items',):
                vals = [mk('item', v, const(i)) for i in range(len(t.elts))]
            else:
                ev = self.event('unpack', 'unpack', v, (const(len(t.elts)),), (), None, t, fr, st)
                self.may_raise(st, ev)
                self.emit(st, ev)
                vals = []
                after = False
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        vals.append(mk('rest', v, const(i)))
                        after = True
                    elif after:
                        vals.append(mk('item', v, const(i - len(t.elts))))
                    else:
                        if c is not None and i < len(c) and not any(is_star(x) for x in c[:i + 1]):
                            vals.append(c[i])
                        else:
                            vals.append(mk('item', v, const(i)))
            cur = [st]
            for e, x in zip(t.elts, vals):
                tt = e.value if isinstance(e, ast.Starred) else e
                cur = [s2 for s in cur for s2 in self.assign(tt, x, s, fr)]
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise AnalysisBroken('unsupported assignment target %s' % ast.dump(t)[:60])

    def set_attr(self, st, b, name, v, node, fr):
        tn = self.type_of(st, b)
        if tn and not tn.startswith('ext:'):
            for c in self.p.mro(tn):
                if isinstance(c, ClassInfo) and name in c.setters:
                    f = mk('bound', mk('func', c.setters[name].key, None), b)
                    # setters are indexed under the plain qualified name; call the node directly
                    return [s for s, _ in self.call_fi(c.setters[name], None, st, [b, v], [], node, fr)]
            if name not in self.fields_of(tn) and b.op == 'obj':
                sm = self.p.find_method(tn, '__setattr__')
                if sm is not None:
                    return [s for s, _ in self.call(st, mk('bound', mk('func', sm.key, None), b), [const(name), v], [], node, fr)]
        self.write_attr(st, b, name, v, node, fr)
        return [st]

    def write_attr(self, st, b, name, v, node, fr):
        if b.op == 'cls':
            o = self.p.find_class_attr(b.args[0], name)
            if o:
                b = mk('cls', o.key)
        st.heap[(b, 'a', name)] = v
        if self.policy.volatile(b, name):
            st.heap[(b, 'ep', name)] = const(st.epoch)
        self.emit(st, self.event('write', name, b, (), (), self.freeze(st, v), node, fr, st, raw=(v,)))

    def set_item(self, st, b, k, v, node, fr):
        if b.op == 'objdict' and is_const(k):
            self.write_attr(st, b.args[0], k.args[1], v, node, fr)
            return [st]
        tn = self.type_of(st, b)
        if tn and not tn.startswith('ext:'):
            m = self.p.find_method(tn, '__setitem__')
            if m:
                return [s for s, _ in self.call(st, mk('bound', mk('func', m.key, None), b), [k, v], [], node, fr)]
        fk, fv = self.freeze(st, k), self.freeze(st, v)
        ev = self.event('setitem', 'setitem', b, (fk,), (), fv, node, fr, st, raw=(k, v))
        self.may_raise(st, ev)
        self.emit(st, ev)
        self.store_item(st, b, k, v)
        return [st]

    def store_item(self, st, b, k, v):
        """Update the abstract content of container b (v may be DELETED)."""
        m = st.heap.get((b, 'map', None)) if b.op == 'alloc' else None
        if m is not None:
            pairs = []
            found = False
            for kk, vv in m.args:
                if kk is not STARSTAR and self.logic._eq(st, kk, k) is True:
                    found = True
                    if v is not DELETED:
                        pairs.append((kk, v))
                else:
                    pairs.append((kk, vv))
            if not found:
                if v is DELETED:
                    st.heap[(b, 'i', k)] = DELETED
                else:
                    pairs.append((k, v))
                    st.heap.pop((b, 'i', k), None)
            st.heap[(b, 'map', None)] = mk('content', *pairs)
            return
        s = st.heap.get((b, 'seq', None)) if b.op == 'alloc' else None
        if s is not None:
            if is_const(k) and isinstance(k.args[1], int) and not any(is_star(x) for x in s.args) and -len(s.args) <= k.args[1] < len(s.args):
                l = list(s.args)
                if v is DELETED:
                    del l[k.args[1]]
                else:
                    l[k.args[1]] = v
                st.heap[(b, 'seq', None)] = mk('content', *l)
            else:
                st.heap[(b, 'seq', None)] = mk('content', mk('star', mk('mu', 'items', b)))
            return
        # unknown container: a new value may alias other keys only if the keys may be equal
        for kk in [x for x in st.heap if x[0] is b and x[1] == 'i' and x[2] is not k]:
            if self.logic._eq(st, kk[2], k) is None:
                del st.heap[kk]
        st.heap[(b, 'i', k)] = v

    def list_extend(self, st, lst, v):
        c = st.heap.get((lst, 'seq', None))
        e = self.iter_elems(st, v)
        add = list(e) if e is not None else [mk('star', v)]
        st.heap[(lst, 'seq', None)] = mk('content', *(list(c.args if c else ()) + add))

    # ================================================================== conditions
    def branch(self, st, c):
        """Fork on the truth of a value / condition term."""
        c = subst(st, c)
        d = self.logic.decide(st, c)
        if d is not None:
            return [(st, d)]
        s2 = st.fork()
        out = []
        if self.logic.assume(st, c, True):
            out.append((st, True))
        if self.logic.assume(s2, c, False):
            out.append((s2, False))
        return out

    def cond(self, node, st, fr):
        """[(state, bool)] for a condition expression (short-circuiting)."""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur = [st]
            out = []
            for v in node.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s, fr):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, is_and) for s in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st, fr)]
        if isinstance(node, ast.Constant):
            return [(st, bool(node.value))]
        if isinstance(node, ast.Compare):
            return self.compare(node, st, fr)
        out = []
        for s, v in self.eval(node, st, fr):
            out.extend(self.cond_value(s, v, node, fr))
        return out

    def cond_value(self, s, v, node, fr):
        v = subst(s, v)
        tn = self.type_of(s, v)
        if tn and not tn.startswith('ext:'):
            for mname in ('__bool__', '__len__'):
                m = self.p.find_method(tn, mname)
                if m is not None:
                    out = []
                    for s2, r in self.call(s, mk('bound', mk('func', m.key, None), v), [], [], node, fr):
                        out.extend(self.branch(s2, r))
                    return out
        if v.op == 'isinst':
            return self.branch_isinst(s, v.args[0], v.args[1])
        return self.branch(s, v)

    def branch_isinst(self, st, t, c):
        t = subst(st, t)
        d = self.logic.decide(st, mk('isinst', t, c))
        if d is not None:
            return [(st, d)]
        types = seq_content(st, c)
        if types is None:
            return self.branch(st, mk('isinst', t, c))
        out = []
        cur = [st]
        for x in types:
            nxt = []
            for s in cur:
                for s2, b in self.branch_isinst(s, t, x.args[0] if is_star(x) else x):
                    (out if b else nxt).append((s2, True) if b else s2)
            cur = nxt
        return out + [(s, False) for s in cur]

    def compare(self, node, st, fr):
        out = []
        cur = [(st, None)]
        ops = list(zip(node.ops, [node.left] + node.comparators[:-1], node.comparators))
        for s, lv in self.eval(node.left, st, fr):
            frontier = [(s, lv)]
            for op, _, rn in ops:
                nxt = []
                for s1, l in frontier:
                    for s2, r in self.eval(rn, s1, fr):
                        for s3, b in self.compare1(op, subst(s2, l), subst(s2, r), s2, node, fr):
                            if b:
                                nxt.append((s3, r))
                            else:
                                out.append((s3, False))
                frontier = nxt
            out.extend((s1, True) for s1, _ in frontier)
        return out

    def compare1(self, op, l, r, st, node, fr):
        if isinstance(op, (ast.Is, ast.IsNot)):
            res = self.branch(st, same_atom(l, r))
            return [(s, b != isinstance(op, ast.IsNot)) for s, b in res]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            tn = self.type_of(st, l)
            if tn and not tn.startswith('ext:'):
                m = self.p.find_method(tn, '__eq__')
                if m is not None and not self.policy.opaque(m):
                    out = []
                    for s, v in self.call(st, mk('bound', mk('func', m.key, None), l), [r], [], node, fr):
                        for s2, b in self.branch(s, v):
                            out.append((s2, b != isinstance(op, ast.NotEq)))
                    return out
            cl, cr = seq_content(st, l), seq_content(st, r)
            for x, cx in ((l, cr), (r, cl)):
                # comparison with an empty literal
                if cx is not None and not cx and (seq_content(st, x) is None):
                    res = self.branch(st, mk('truth', x))
                    return [(s, (not b) != isinstance(op, ast.NotEq)) for s, b in res]
            if is_const(r) and r.args[1] is False and l.op in BOOLEAN:
                return [(s, (not b) != isinstance(op, ast.NotEq)) for s, b in self.branch(st, l)]
            if l.op == 'tuple' and r.op == 'tuple' and len(l.args) == len(r.args) and not any(is_star(x) for x in l.args + r.args):
                cur, out = [st], []
                for x, y in zip(l.args, r.args):
                    nxt = []
                    for s in cur:
                        for s2, b in self.branch(s, eq_atom(subst(s, x), subst(s, y))):
                            (nxt if b else out).append(s2)
                    cur = nxt
                ne = isinstance(op, ast.NotEq)
                return [(s, not ne) for s in cur] + [(s, ne) for s in out]
            return [(s, b != isinstance(op, ast.NotEq)) for s, b in self.branch(st, eq_atom(l, r))]
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            return [(s, b != neg) for s, b in self.contains(l, r, st, node, fr)]
        if isinstance(op, ast.Lt):
            a, b, neg = l, r, False
        elif isinstance(op, ast.Gt):
            a, b, neg = r, l, False
        elif isinstance(op, ast.LtE):
            a, b, neg = r, l, True
        else:
            a, b, neg = l, r, True
        if is_const(a) and is_const(b):
            try:
                return [(st, (a.args[1] < b.args[1]) != neg)]
            except TypeError:
                self.throw_kind(st, 'TypeError')
                return []
        x = lin_lt(a, b)
        if isinstance(x, bool):
            return [(st, x != neg)]
        return [(s, b2 != neg) for s, b2 in self.branch(st, x)]

    def contains(self, l, r, st, node, fr):
        tn = self.type_of(st, r)
        if tn and not tn.startswith('ext:'):
            m = self.p.find_method(tn, '__contains__')
            if m is not None:
                out = []
                for s, v in self.call(st, mk('bound', mk('func', m.key, None), r), [l], [], node, fr):
                    out.extend(self.branch(s, v))
                return out
        self.emit(st, self.event('contains', 'in', r, (self.freeze(st, l),), (), None, node, fr, st))
        d = self.logic.decide(st, mk('in', l, r))
        if d is not None:
            return [(st, d)]
        if r.op == 'keys':
            return self.contains(l, r.args[0], st, node, fr)
        c = seq_content(st, r)
        if c is None:
            m = map_content(st, r)
            if m is not None and not any(k is STARSTAR for k, v in m):
                c = [k for k, v in m]
        if c is not None and len(c) <= 16 and not any(is_star(x) for x in c):
            out = []
            cur = [st]
            for x in c:
                nxt = []
                for s in cur:
                    for s2, b in self.branch(s, eq_atom(subst(s, l), x)):
                        (out if b else nxt).append((s2, True) if b else s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        out = self.branch(st, mk('in', l, r))
        if r.op == 'alloc' and map_content(st, r) and len(out) > 1:
            for s, b in out:
                s.facts.setdefault(mk('in', l, self.freeze(s, r)), b)       # what it holds now
        return out

    # ================================================================== expressions
    def eval_seq(self, nodes, st, fr):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval(n, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def eval(self, node, st, fr):
        m = getattr(self, 'e_' + node.__class__.__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported expression %s at %s' % (node.__class__.__name__, self.site(node, fr)))
        return m(node, st, fr)

    def e_Constant(self, node, st, fr):
        return [(st, const(node.value))]

    def e_Name(self, node, st, fr):
        v = self.lookup(node.id, st, fr, node)
        if v is None:
            self.throw_kind(st, 'NameError')
            return []
        return [(st, subst(st, v))]

    def lookup(self, name, st, fr, node=None):
        f = fr
        while f is not None:
            if f.fi is None:
                v = st.env.get((f.fid, name))
                if v is not None:
                    return v
            elif name in f.fi.globals_:
                break
            else:
                v = st.env.get((f.fid, name))
                if v is not None:
                    return v
                if name in f.fi.locals:
                    return None
            f = f.parent
        return self.global_value(fr.module.name, name, st)

    def global_value(self, mod, name, st):
        r = self.p.resolve(mod, name)
        if r is None:
            if name in ('__name__', '__file__', '__doc__'):
                return ext('%s.%s' % (mod, name))
            if name in BUILTINS:
                return ext(name)
            return None
        return self.binding_value(r, st)

    def binding_value(self, r, st):
        k = r[0]
        if k == 'cls':
            return mk('cls', r[1])
        if k == 'func':
            fi = self.p.funcs[r[1]]
            return mk('func', r[1], None)
        if k == 'mod':
            return mk('mod', r[1])
        if k == 'ext':
            return ext(norm_ext(r[1]))
        return self.module_var(r[1], r[2], st)

    def module_var(self, mod, name, st):
        base = mk('mod', mod)
        v = st.heap.get((base, 'a', name))
        if v is not None:
            return v
        if self.p.is_final_global(mod, name):
            c = self._gcache.get((mod, name))
            if c is None:
                c = mk('attr', base, name)
                self._gcache[(mod, name)] = c       # recursion guard
                b = self.p.modules[mod].bind[name][0]
                if b[0] == 'expr':
                    x = self.eval_global(b[1], mod)
                    if x is not None:
                        c = x
                self._gcache[(mod, name)] = c
            return c
        # conditional imports: all bindings agree on an external module (import numpy as np / HAVE_...)
        bs = self.p.modules[mod].bind.get(name, [])
        return mk('attr', base, name)

    def eval_global(self, expr, mod):
        """Value of an immutable module constant, or None."""
        if isinstance(expr, (ast.Dict, ast.List, ast.Set)) and self.global_mutated(mod, expr):
            return None
        try:
            v = ast.literal_eval(expr)
            return lit(v)
        except (ValueError, TypeError, SyntaxError):
            pass
        if isinstance(expr, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)):
            if isinstance(expr, (ast.List, ast.Dict)) and not self.global_mutated(mod, expr):
                pass
            else:
                return None
        sub = Interp.__new__(Interp)
        sub.__dict__.update(self.__dict__)
        sub.policy = QuietPolicy()
        sub.raised = []
        sub.stack = [mod + ':<module>']
        try:
            st = State()
            fr = sub.new_frame(None, None, self.p.modules[mod])
            self.nfid = sub.nfid = sub.nfid + 1000
            rs = sub.eval(expr, st, fr)
        except AnalysisBroken:
            return None
        if len(rs) != 1:
            return None
        v = sub.freeze(rs[0][0], rs[0][1])
        if any(x.op in ('alloc', 'obj') for x in subterms(v)):
            return None
        return v

    def global_mutated(self, mod, expr):
        """Is a module level list/dict ever modified through its name?"""
        names = [n for n, bs in self.p.modules[mod].bind.items() if any(b[0] == 'expr' and b[1] is expr for b in bs)]
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    d = dotted(n.value)
                    if d and d.split('.')[-1] in names:
                        return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    d = dotted(n.func.value)
                    if d and d.split('.')[-1] in names and n.func.attr in (
                            'append', 'add', 'update', 'pop', 'remove', 'clear', 'setdefault', 'insert', 'extend', 'popitem'):
                        return True
        return False

    def e_Attribute(self, node, st, fr):
        res = []
        for s, b in self.eval(node.value, st, fr):
            for s2, v in self.get_attr(s, subst(s, b), node.attr, node, fr):
                res.append((s2, subst(s2, v)))
        return res

    def phi_consistent(self, st, b, x):
        """May the merged value b be its alternative x, given what has been assumed about b?"""
        for c, v in st.facts.items():
            if isinstance(v, bool) and c.op in ('isinst', 'truth', 'isnone') and c.args[0] is b:
                d = self.logic.decide(st, mk(c.op, x, *c.args[1:]))
                if d is not None and d != v:
                    return False
        return True

    def dynamic_attrs(self, st, x):
        tn = self.type_of(st, x)
        return bool(tn and not tn.startswith('ext:') and self.p.find_method(tn, '__getattr__'))

    def get_attr(self, st, b, name, node, fr):
        op = b.op
        if op == 'ext':
            v = st.heap.get((b, 'a', name))
            if v is not None and v is not DELETED:      # assigned by the program
                return [(st, phi(v.args + (ext(norm_ext(b.args[0] + '.' + name)),)) if v.op == 'maybe' else v)]
            return [(st, ext(norm_ext(b.args[0] + '.' + name)))]
        if op == 'mod':
            v = st.heap.get((b, 'a', name))
            if v is not None:
                return [(st, v)]
            r = self.p.resolve(b.args[0], name)
            if r is None:
                return [(st, mk('attr', b, name))]
            return [(st, self.binding_value(r, st))]
        if op == 'cls':
            return self.class_attr(st, b, name, node, fr)
        if op == 'super':
            m = self.p.find_method(self.obj_class(st, b.args[1]) or b.args[0], name, after=b.args[0])
            if m is not None:
                fv = mk('func', m.key, None)
                if m.is_class or b.args[1].op == 'cls':
                    return [(st, mk('bound', fv, b.args[1]))]
                if m.is_property:
                    return self.call_fi(m, None, st, [b.args[1]], [], node, fr)
                return [(st, mk('bound', fv, b.args[1]))]
            eb = self.p.ext_bases(b.args[0]) or ['object']
            return [(st, mk('extbound', eb[0] + '.' + name, b.args[1]))]
        if op == 'phi':
            ms = [self.find_member(st, x, name) for x in b.args]
            if any(m is not None or self.dynamic_attrs(st, x) for x, m in zip(b.args, ms)):
                # split the alternatives
                out = []
                for x in b.args:
                    s2 = st.fork()
                    s2.facts[mk('=', b)] = x
                    if not self.phi_consistent(st, b, x):
                        continue
                    if self.logic._isnone(s2, x) is True:
                        self.throw_kind(s2, 'AttributeError')
                        continue
                    out.extend(self.get_attr(s2, x, name, node, fr))
                return out
        if op == 'const' and b.args[1] is None:
            self.throw_kind(st, 'AttributeError')
            return []
        if name == '__dict__':
            return [(st, mk('objdict', b))]
        tn = self.type_of(st, b)
        if tn and not tn.startswith('ext:'):
            if name == '__class__':
                return [(st, mk('cls', tn))]
            v = st.heap.get((b, 'a', name))
            if v is not None and v is not DELETED:
                if v.op == 'maybe':
                    v = phi(v.args)
                v2 = self.volatile_read(st, b, name, v)
                self.read_event(st, b, name, v2, node, fr)
                return [(st, v2)]
            m = self.p.find_method(tn, name)
            fields = self.fields_of(tn)
            if m is not None and name not in fields:
                fv = mk('func', m.key, getattr(m, 'parent_fid', None))
                if m.is_property:
                    return self.call_fi(m, None, st, [b], [], node, fr)
                if m.is_static:
                    return [(st, fv)]
                return [(st, mk('bound', fv, mk('cls', tn) if m.is_class else b))]
            if v is DELETED:
                self.throw_kind(st, 'AttributeError')
                return []
            ca = self.p.find_class_attr(tn, name)
            if name not in fields and ca is not None:
                return self.class_attr(st, mk('cls', ca.key), name, node, fr)
            if name not in fields:
                g = self.p.find_method(tn, '__getattr__')
                if g is not None and not (name.startswith('__') and name.endswith('__')):
                    return self.call(st, mk('bound', mk('func', g.key, None), b), [const(name)], [], node, fr)
            if b.op == 'obj':
                v = self.field_table(b, tn, name)
                if v is not None:
                    return [(st, v)]
            v = self.symbolic_field(st, b, name)
            self.read_event(st, b, name, v, node, fr)
            return [(st, v)]
        v = st.heap.get((b, 'a', name))
        if v is not None and v is not DELETED:
            if v.op == 'maybe':
                v = phi(v.args)
            self.read_event(st, b, name, v, node, fr)
            return [(st, v)]
        if op == 'alloc' or op in ('list', 'dict', 'tuple', 'const', 'fstr', 'items'):
            return [(st, mk('extbound', '.' + name, b))]
        v = mk('attr', b, name)
        self.read_event(st, b, name, v, node, fr)
        return [(st, v)]

    def volatile_read(self, st, b, name, v):
        if self.policy.volatile(b, name):
            e = st.heap.get((b, 'ep', name))
            if e is None or cval(e) != st.epoch:
                return mk('at', mk('attr', b, name), st.epoch)
        return v

    def symbolic_field(self, st, b, name):
        if self.policy.volatile(b, name):
            return mk('at', mk('attr', b, name), st.epoch)
        if st.ver is not None and b.op == 'obj' and b.args[1] == 'sym' and self.nonfinal(b, name):
            return mk('mu', st.ver[0], mk('attr', b, name))
        return mk('attr', b, name)

    def read_event(self, st, b, name, v, node, fr):
        if self.policy.reads(b, name):
            self.emit(st, self.event('read', name, b, (), (), v, node, fr, st, extra=None))

    def find_member(self, st, x, name):
        tn = self.type_of(st, x)
        if tn and not tn.startswith('ext:'):
            return self.p.find_method(tn, name)
        if x.op == 'cls':
            return self.p.find_method(x.args[0], name)
        if x.op in ('mod', 'ext'):
            return True
        return None

    def class_attr(self, st, b, name, node, fr):
        key = b.args[0]
        m = self.p.find_method(key, name)
        if m is not None:
            fv = mk('func', m.key, None)
            if m.is_class:
                return [(st, mk('bound', fv, b))]
            return [(st, fv)]
        c = self.p.find_class_attr(key, name)
        if c is not None:
            ob = mk('cls', c.key)
            v = st.heap.get((ob, 'a', name))
            if v is None:
                v = self.class_const(c, name)
            if v is None:
                v = mk('attr', ob, name)
            self.read_event(st, ob, name, v, node, fr)
            return [(st, v)]
        if name == '__name__':
            return [(st, const(self.p.classes[key].name))]
        v = st.heap.get((b, 'a', name))
        if v is not None:
            return [(st, v)]
        eb = self.p.ext_bases(key)
        if eb and eb[0] != 'object':
            return [(st, mk('attr', b, name))]
        return [(st, mk('attr', b, name))]

    def class_const(self, ci, name):
        k = ('cls', ci.key, name)
        if k in self._gcache:
            return self._gcache[k]
        self._gcache[k] = None
        v = None
        stored = any(isinstance(n, ast.Attribute) for m, f, n in self.p.attr_stores.get(name, []))
        if not stored:
            e = ci.attrs[name]
            try:
                v = lit(ast.literal_eval(e))
                if v.op not in ('const', 'tuple'):
                    v = None
            except (ValueError, TypeError, SyntaxError):
                v = None
            if v is None and isinstance(e, (ast.Dict, ast.List, ast.Set, ast.Tuple)) and self.read_only(name):
                v = self.table(e, ci, None)
        self._gcache[k] = v
        return v

    def read_only(self, name):
        """Is every use of an attribute of this name one that cannot change or keep the container?"""
        k = ('ro', name)
        if k in self._gcache:
            return self._gcache[k]
        good = bad = 0
        for m in self.p.modules.values():
            if not any(isinstance(n, ast.Attribute) and n.attr == name for n in ast.walk(m.tree)):
                continue
            for n in ast.walk(m.tree):
                kids = []
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    kids = [n.value]
                elif isinstance(n, ast.Attribute) and n.attr in ('get', 'items', 'keys', 'values', 'index', 'count', 'copy'):
                    kids = [n.value]
                elif isinstance(n, ast.Compare):
                    kids = n.comparators
                elif isinstance(n, (ast.For, ast.comprehension)):
                    kids = [n.iter]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'list', 'tuple', 'sorted', 'dict', 'set', 'iter', 'enumerate', 'isinstance'):
                    kids = n.args
                elif isinstance(n, ast.Attribute) and n.attr == name and not isinstance(n.ctx, ast.Load):
                    good += 1
                good += sum(isinstance(x, ast.Attribute) and x.attr == name for x in kids)
                bad += isinstance(n, ast.Attribute) and n.attr == name
        r = self._gcache[k] = good >= bad > 0
        return r

    def table(self, e, ci, me):
        """Value of a container display of constants and functions (in a class body, or of methods of an instance), or None."""
        def val(x):
            try:
                return lit(ast.literal_eval(x))
            except (ValueError, TypeError, SyntaxError):
                pass
            if isinstance(x, ast.Name) and me is None and x.id in ci.methods:
                return mk('func', ci.methods[x.id].key, None)
            if isinstance(x, ast.Name) and me is None and x.id in ci.attrs:
                return self.class_const(ci, x.id)
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and me is not None and x.value.id == 'self':
                m = self.p.find_method(me.args[0] if me.op == 'obj' else ci.key, x.attr)
                if m is not None and not m.is_property:
                    f = mk('func', m.key, None)
                    return f if m.is_static else mk('bound', f, me)
                return None
            if isinstance(x, (ast.Tuple, ast.List)) and isinstance(x.ctx, ast.Load):
                vs = [val(y) for y in x.elts]
                return None if any(v is None for v in vs) else mk('tuple' if isinstance(x, ast.Tuple) else 'list', *vs)
            if isinstance(x, ast.Name) and (me is None or x.id != 'self'):
                r = self.p.resolve(ci.module.name, x.id)
                if r is not None and r[0] in ('func', 'cls'):
                    return self.binding_value(r, State())
                if r is None and x.id in ('int', 'float', 'bool', 'str', 'bytes', 'tuple', 'list', 'dict', 'set'):
                    return ext(x.id)
            if isinstance(x, ast.Attribute) and dotted(x):
                r = self.p.resolve(ci.module.name, dotted(x).split('.')[0])
                if r is not None and r[0] == 'ext':
                    return ext('.'.join([r[1]] + dotted(x).split('.')[1:]))
            return None
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                return None
            kv = [(val(k), val(v)) for k, v in zip(e.keys, e.values)]
            if not kv or any(k is None or v is None for k, v in kv):
                return None
            return mk('dict', *kv)
        vs = [val(y) for y in e.elts]
        if not vs or any(v is None for v in vs):
            return None
        return mk('tuple' if isinstance(e, ast.Tuple) else 'list', *vs)

    def field_table(self, b, tn, name):
        """A table of methods that is set once, when an object is made, and only read afterwards."""
        st = self.p.attr_stores.get(name, [])
        if len(st) != 1 or not isinstance(st[0][2], ast.Attribute):
            return None
        k = ('ft', tn, name, b)
        if k in self._gcache:
            return self._gcache[k]
        self._gcache[k] = None
        v = None
        for c in self.p.mro(tn):
            init = c.methods.get('__init__') if isinstance(c, ClassInfo) else None
            if init is None:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] is st[0][2] and isinstance(n.value, ast.Dict) and \
                        any(isinstance(x, ast.Attribute) for x in n.value.values) and self.read_only(name):
                    v = self.table(n.value, c, b)
        self._gcache[k] = v
        return v

    def e_Subscript(self, node, st, fr):
        res = []
        for s, (b, k) in self.eval_seq([node.value, node.slice], st, fr):
            res.extend(self.get_item(s, subst(s, b), subst(s, k), node, fr))
        return res

    def e_Slice(self, node, st, fr):
        parts = [p if p is not None else ast.Constant(value=None) for p in (node.lower, node.upper, node.step)]
        return [(s, mk('slice', *vs)) for s, vs in self.eval_seq(parts, st, fr)]

    def get_item(self, st, b, k, node, fr):
        if b.op == 'objdict' and is_const(k):
            return self.get_attr(st, b.args[0], k.args[1], node, fr)
        tn = self.type_of(st, b)
        if tn and not tn.startswith('ext:'):
            m = self.p.find_method(tn, '__getitem__')
            if m is not None:
                return self.call(st, mk('bound', mk('func', m.key, None), b), [k], [], node, fr)
        if k.op == 'slice':
            c = seq_content(st, b)
            if c is not None and not any(is_star(x) for x in c) and all(is_const(x) for x in k.args):
                sl = c[slice(*[x.args[1] for x in k.args])]
                return [(st, mk('tuple' if b.op == 'tuple' else 'list', *sl))]
            if is_const(b) and isinstance(b.args[1], (str, bytes)) and all(is_const(x) for x in k.args):
                return [(st, const(b.args[1][slice(*[x.args[1] for x in k.args])]))]
            return [(st, mk('item', self.freeze(st, b), k))]
        if b.op == 'phi' and is_const(k) and isinstance(k.args[1], int):
            vals = []
            for x in b.args:
                cx = seq_content(st, x)
                if cx is None or any(is_star(y) for y in cx) or not -len(cx) <= k.args[1] < len(cx):
                    break
                vals.append(cx[k.args[1]])
            else:
                return [(st, phi(vals))]
        c = seq_content(st, b)
        if c is not None and is_const(k) and isinstance(k.args[1], int):
            i = k.args[1]
            pre = []
            for x in c:
                if is_star(x):
                    break
                pre.append(x)
            if (i >= 0 and i < len(pre)) or (i < 0 and len(pre) == len(c) and -i <= len(c)):
                return [(st, c[i])]
            if len(pre) == len(c):
                self.throw_kind(st, 'IndexError')
                return []
            if i >= 0 and is_star(c[len(pre)]) and len(c) == len(pre) + 1:
                inner = c[len(pre)].args[0]
                v = mk('item', inner, const(i - len(pre)))
                self.may_raise(st, self.event('getitem', 'getitem', b, (k,), (), v, node, fr, st))
                return [(st, v)]
            return [(st, mk('item', self.freeze(st, b), k))]
        m = map_content(st, b)
        if m is not None:
            r = self.dict_lookup(st, m, k)
            if r is not None:
                found, v = r
                if found:
                    return [(st, v)]
                self.throw_kind(st, 'KeyError', k)
                return []
            # try forking over the known keys
            if len(m) <= 24 and not any(kk is STARSTAR for kk, v in m):
                out = []
                cur = [st]
                for kk, vv in m:
                    nxt = []
                    for s in cur:
                        for s2, eq in self.branch(s, eq_atom(subst(s, k), kk)):
                            if eq:
                                out.append((s2, vv))
                            else:
                                nxt.append(s2)
                    cur = nxt
                for s in cur:
                    self.throw_kind(s, 'KeyError', k)
                return out
        hv = st.heap.get((b, 'i', k))
        if hv is DELETED:
            self.throw_kind(st, 'KeyError', k)
            return []
        if hv is not None:
            ev = self.event('getitem', 'getitem', b, (self.freeze(st, k),), (), hv, node, fr, st)
            self.emit(st, ev)
            if hv.op == 'maybe':
                self.may_raise(st, ev)
                hv = phi(hv.args)
            return [(st, hv)]
        known = self.logic._in(st, k, b)
        v = mk('item', self.freeze(st, b), self.freeze(st, k))
        if m is not None:
            pv = self.possible_values(st, m, k)
            if pv:
                v = phi(pv)
        ev = self.event('getitem', 'getitem', b, (self.freeze(st, k),), (), v, node, fr, st)
        if known is False:
            self.throw_kind(st, 'KeyError', k)
            return []
        if known is None:
            self.may_raise(st, ev)
            if not (is_const(k) and isinstance(k.args[1], int)):
                st.facts[mk('in', k, b)] = True
        self.emit(st, ev)
        return [(st, v)]

    def possible_values(self, st, pairs, k):
        """Every value the key may have in a map whose unknown parts are summarised; None if unknown."""
        res = []
        for kk, vv in pairs:
            if kk is STARSTAR:
                if vv.op == 'manymap':
                    res.extend(x for x in vv.args[1:] if x not in res)
                elif vv.op == 'dict' and all(k2 is not STARSTAR for k2, _ in vv.args):
                    res.extend(x for k2, x in vv.args if x not in res and self.logic._eq(st, k2, k) is not False)
                else:
                    return None
            elif self.logic._eq(st, kk, k) is not False and vv not in res:
                res.append(vv)
        return res

    def dict_lookup(self, st, pairs, k):
        """(True, value) / (False, None) / None (unknown)."""
        for kk, vv in reversed(pairs):
            if kk is STARSTAR:
                if vv.op == 'dict':
                    # merged alternatives: same key with several values
                    alts = [v2 for k2, v2 in vv.args if k2 is not STARSTAR and self.logic._eq(st, k2, k) is True]
                    if alts:
                        older = self.dict_lookup(st, pairs[:pairs.index((kk, vv))], k)
                        if older and older[0]:
                            alts.append(older[1])
                        return True, phi(alts)
                    if all(k2 is not STARSTAR and self.logic._eq(st, k2, k) is False for k2, v2 in vv.args):
                        continue
                if vv.op == 'compdict' and vv.args[2] is False and vv.args[1] and all(x[0] is k for x in vv.args[1]) and not any(outside(x[1], k) for x in vv.args[1]):
                    return True, phi([x[1] for x in vv.args[1]])    # the table made for every such key
                return None
            e = self.logic._eq(st, kk, k)
            if e is True:
                return True, vv
            if e is None:
                return None
        return False, None

    def e_Tuple(self, node, st, fr):
        return [(s, mk('tuple', *self.flat_star(s, node.elts, vs))) for s, vs in self.eval_seq(node.elts, st, fr)]

    def flat_star(self, st, elts, vs):
        out = []
        for e, v in zip(elts, vs):
            if isinstance(e, ast.Starred):
                el = self.iter_elems(st, v)
                if el is not None:
                    out.extend(el)
                else:
                    out.append(mk('star', v))
            else:
                out.append(v)
        return out

    def e_Starred(self, node, st, fr):
        return self.eval(node.value, st, fr)

    def alloc(self, st, kind, node, fr):
        site = (kind, self.site(node, fr), len(self.stack))
        return mk('alloc', kind, '%s:%d:%d' % (fr.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),
                  st.occ(site))

    def e_List(self, node, st, fr):
        res = []
        for s, vs in self.eval_seq(node.elts, st, fr):
            a = self.alloc(s, 'list', node, fr)
            s.heap[(a, 'seq', None)] = mk('content', *self.flat_star(s, node.elts, vs))
            res.append((s, a))
        return res

    def e_Set(self, node, st, fr):
        res = []
        for s, vs in self.eval_seq(node.elts, st, fr):
            a = self.alloc(s, 'set', node, fr)
            s.heap[(a, 'seq', None)] = mk('content', *self.flat_star(s, node.elts, vs))
            res.append((s, a))
        return res

    def new_list(self, st, elems, node, fr, kind='list'):
        a = self.alloc(st, kind, node, fr)
        st.heap[(a, 'seq', None)] = mk('content', *elems)
        return a

    def new_dict(self, st, pairs, node, fr):
        a = self.alloc(st, 'dict', node, fr)
        st.heap[(a, 'map', None)] = mk('content', *pairs)
        return a

    def e_Dict(self, node, st, fr):
        ks = [k if k is not None else ast.Constant(value=None) for k in node.keys]
        res = []
        for s, vs in self.eval_seq([x for kv in zip(ks, node.values) for x in kv], st, fr):
            pairs = []
            for i, k in enumerate(node.keys):
                kv, vv = vs[2 * i], vs[2 * i + 1]
                if k is None:
                    pairs = self.dict_merge(s, pairs, vv)
                else:
                    pairs = [p for p in pairs if p[0] is not kv] + [(kv, vv)]
            a = self.new_dict(s, pairs, node, fr)
            res.append((s, a))
        return res

    def dict_merge(self, st, pairs, other):
        """pairs updated with the mapping `other`."""
        other = subst(st, other)
        m = map_content(st, other)
        if m is None:
            c = seq_content(st, other)
            if c is not None and all(x.op == 'tuple' and len(x.args) == 2 for x in c):
                m = tuple((x.args[0], x.args[1]) for x in c)
        if m is None:
            return list(pairs) + [(STARSTAR, self.freeze(st, other))]
        out = list(pairs)
        for k, v in m:
            if k is not STARSTAR:
                out = [p for p in out if not (p[0] is not STARSTAR and self.logic._eq(st, p[0], k) is True)]
            out.append((k, v))
        return out

    def e_IfExp(self, node, st, fr):
        res = []
        for s, b in self.cond(node.test, st, fr):
            res.extend(self.eval(node.body if b else node.orelse, s, fr))
        return res

    def e_BoolOp(self, node, st, fr):
        is_and = isinstance(node.op, ast.And)
        res = []
        cur = [st]
        for i, vn in enumerate(node.values):
            nxt = []
            last = i == len(node.values) - 1
            for s in cur:
                if isinstance(vn, (ast.Compare, ast.BoolOp)) or (isinstance(vn, ast.UnaryOp) and isinstance(vn.op, ast.Not)):
                    for s2, b in self.cond(vn, s, fr) if not isinstance(vn, ast.BoolOp) else \
                            [(s3, v3) for s3, v3 in self.eval(vn, s, fr)]:
                        v = b if isinstance(b, Term) else (TRUE if b else FALSE)
                        if last:
                            res.append((s2, v))
                        else:
                            for s3, bb in self.branch(s2, v):
                                (nxt.append(s3) if bb == is_and else res.append((s3, subst(s3, v))))
                    continue
                for s2, v in self.eval(vn, s, fr):
                    if last:
                        res.append((s2, v))
                        continue
                    for s3, b in self.cond_value(s2, v, vn, fr):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            res.append((s3, subst(s3, v)))
            cur = nxt
        return res

    def e_Compare(self, node, st, fr):
        return [(s, TRUE if b else FALSE) for s, b in self.compare(node, st, fr)]

    def e_UnaryOp(self, node, st, fr):
        if isinstance(node.op, ast.Not):
            return [(s, TRUE if b else FALSE) for s, b in self.cond(node, st, fr)]
        res = []
        for s, v in self.eval(node.operand, st, fr):
            sg = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[node.op.__class__]
            if is_const(v) and isinstance(v.args[1], (int, float)):
                x = v.args[1]
                res.append((s, const(-x if sg == '-' else (+x if sg == '+' else ~x))))
            else:
                res.append((s, mk('un', sg, v)))
        return res

    def e_BinOp(self, node, st, fr):
        res = []
        for s, (l, r) in self.eval_seq([node.left, node.right], st, fr):
            l, r = subst(s, l), subst(s, r)
            res.append((s, self.binop(OPS[node.op.__class__], l, r, s, node, fr)))
        return res

    def binop(self, op, l, r, st, node, fr):
        if is_const(l) and is_const(r):
            try:
                v = PYOPS[op](l.args[1], r.args[1])
                if isinstance(v, (int, float, str, bytes, bool)):
                    return const(v)
            except Exception:
                pass
        if op == '%' and (l.op == 'fstr' or (is_const(l) and isinstance(l.args[1], str))):
            self.formatting(st, [r], node, fr)
            f = self.percent_format(st, l, r)
            if f is not None:
                return f
        if op == '+':
            if is_strish(l) or is_strish(r):
                return fstr([l, r])
            cl, cr = seq_content(st, l), seq_content(st, r)
            if (cl is not None or cr is not None) and not (is_const(l) or is_const(r)):
                lt = l.op == 'tuple' or r.op == 'tuple'
                items = (list(cl) if cl is not None else [mk('star', l)]) + (list(cr) if cr is not None else [mk('star', r)])
                if lt:
                    return mk('tuple', *items)
                return self.new_list(st, items, node, fr)
        if op == '|':
            if map_content(st, l) is not None or map_content(st, r) is not None:
                return self.new_dict(st, self.dict_merge(st, self.dict_merge(st, [], l), r), node, fr)
        if op in ('-', '&') and not is_const(l) and not is_const(r):
            a, b = (self.iter_elems(st, x) for x in (l, r))
            if a is not None and b is not None and all(is_const(x) for x in list(a) + list(b)):
                return self.new_list(st, [x for x in dict.fromkeys(a) if (x in b) == (op == '&')], node, fr, 'set')
        if op == '*' and is_const(r) and isinstance(r.args[1], int) and seq_content(st, l) is not None and r.args[1] < 9:
            return self.new_list(st, list(seq_content(st, l)) * r.args[1], node, fr)
        return mk('bin', op, self.freeze(st, l), self.freeze(st, r))

    def percent_format(self, st, l, r):
        if l.op == 'fstr':
            return None
        fmt = l.args[1]
        args = list(r.args) if r.op == 'tuple' else [r]
        if any(is_star(a) for a in args):
            return None
        parts = []
        i = 0
        n = 0
        buf = ''
        import re
        for m in re.finditer(r'%(%|\((\w+)\)[-#0 +]*\d*(?:\.\d+)?[a-zA-Z]|[-#0 +]*\d*(?:\.\d+)?[a-zA-Z])', fmt):
            buf += fmt[i:m.start()]
            i = m.end()
            if m.group(1) == '%':
                buf += '%'
                continue
            if m.group(2):
                c = map_content(st, r)
                d = self.dict_lookup(st, c, const(m.group(2))) if c is not None else None
                if not d or not d[0]:
                    return None
                a = d[1]
            else:
                if n >= len(args):
                    return None
                a = args[n]
                n += 1
            parts.append(const(buf))
            buf = ''
            conv = m.group(0)[-1]
            parts.append(self.freeze(st, a) if conv in 'sd' else mk('fmt', conv, self.freeze(st, a)))
        if not parts and n == 0 and fmt.count('%'):
            return None
        if n == 0 and not (r.op == 'tuple' and not args) and '%(' not in fmt:
            return None
        parts.append(const(buf + fmt[i:]))
        return fstr(parts)

    def formatting(self, st, vals, node, fr):
        if self.policy.formats:
            ev = self.event('format', 'format', None, tuple(self.freeze(st, v) for v in vals), (), None, node, fr, st)
            self.may_raise(st, ev)

    def e_JoinedStr(self, node, st, fr):
        nodes = []
        for v in node.values:
            nodes.append(v.value if isinstance(v, ast.FormattedValue) else v)
        res = []
        for s, vs in self.eval_seq(nodes, st, fr):
            parts = []
            self.formatting(s, vs, node, fr)
            for n, v in zip(node.values, vs):
                v = self.freeze(s, subst(s, v))
                if isinstance(n, ast.FormattedValue) and (n.conversion == 114 or n.format_spec is not None):
                    v = mk('fmt', 'r' if n.conversion == 114 else 'spec', v)
                parts.append(v)
            res.append((s, fstr(parts)))
        return res

    def e_FormattedValue(self, node, st, fr):
        return self.eval(node.value, st, fr)

    def e_NamedExpr(self, node, st, fr):
        res = []
        for s, v in self.eval(node.value, st, fr):
            res.extend((s2, v) for s2 in self.assign(node.target, v, s, fr))
        return res

    def e_Lambda(self, node, st, fr):
        fi = self.p.nested_func(fr.fi or self.module_fi(fr), node)
        fr.closure = True
        fv = mk('func', fi.key, fr.fid)
        self.bind_defaults(st, fv, node.args, fr)
        return [(st, fv)]

    def e_Await(self, node, st, fr):
        return self.eval(node.value, st, fr)

    def e_Yield(self, node, st, fr):
        res = []
        vals = self.eval(node.value, st, fr) if node.value is not None else [(st, NONE)]
        for s, v in vals:
            if self.yield_handlers:
                h = self.yield_handlers[-1]
                saved = self.yield_handlers
                self.yield_handlers = saved[:-1]
                sstack = self.stack
                try:
                    res.extend(h(s, v))
                finally:
                    self.yield_handlers = saved
                    self.stack = sstack
            else:
                self.emit(s, self.event('yield', 'yield', None, (self.freeze(s, v),), (), None, node, fr, s))
                res.append((s, mk('sent')))
        return res

    def e_YieldFrom(self, node, st, fr):
        res = []
        for s, v in self.eval(node.value, st, fr):
            if v.op == 'gen':
                for o in self.run_gen(v, s, fr):
                    if o.kind in ('r', 'n'):
                        res.append((o.st, o.val or NONE))
                continue
            elems = self.iter_elems(s, v)
            cur = [s]
            h = self.yield_handlers[-1] if self.yield_handlers else None
            for x in (elems if elems is not None else [self.elem_of(s, v)]):
                nxt = []
                for s2 in cur:
                    if h:
                        saved = self.yield_handlers
                        self.yield_handlers = saved[:-1]
                        try:
                            nxt.extend(s3 for s3, _ in h(s2, x))
                        finally:
                            self.yield_handlers = saved
                    else:
                        nxt.append(s2)
                cur = nxt
            res.extend((s2, NONE) for s2 in cur)
        return res

    # ---- comprehensions ------------------------------------------------------------------------
    def e_ListComp(self, node, st, fr):
        return self.comp(node, node.elt, 'list', st, fr)

    def e_GeneratorExp(self, node, st, fr):
        return self.comp(node, node.elt, 'list', st, fr)

    def e_SetComp(self, node, st, fr):
        return self.comp(node, node.elt, 'set', st, fr)

    def e_DictComp(self, node, st, fr):
        return self.comp(node, (node.key, node.value), 'dict', st, fr)

    def comp(self, node, elt, kind, st, fr):
        names = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: st.env.get((fr.fid, n)) for n in names}
        nodes = list(elt) if isinstance(elt, tuple) else [elt]

        def gen(i, s, acc, exact):
            """[(state, acc, exact)]"""
            if i == len(node.generators):
                out = []
                for s2, vs in self.eval_seq(nodes, s, fr):
                    vs = [subst(s2, v) for v in vs]
                    out.append((s2, acc + [tuple(vs)], exact))
                return out
            g = node.generators[i]
            res = []
            for s1, it in self.eval(g.iter, s, fr):
                it = subst(s1, it)
                el = self.iter_elems(s1, it)
                if el is not None and len(el) <= 64 and not any(is_star(x) for x in el):
                    cur = [(s1, acc, exact)]
                    for x in el:
                        nxt = []
                        for s2, a2, e2 in cur:
                            for s3 in self.assign(g.target, x, s2, fr):
                                oks = [s3]
                                skip = []
                                for c in g.ifs:
                                    n2 = []
                                    for s4 in oks:
                                        for s5, b in self.cond(c, s4, fr):
                                            (n2 if b else skip).append(s5)
                                    oks = n2
                                for s4 in oks:
                                    nxt.extend(gen(i + 1, s4, a2, e2))
                                nxt.extend((s4, a2, e2) for s4 in skip)
                        cur = nxt
                    res.extend(cur)
                    continue
                # unknown iterable: one arbitrary element
                pre = s1.trace
                outer = self.raised
                self.raised = []
                s1b = s1.fork()
                s1b.trace = ()
                items = []
                its = []
                ends = []
                inc, skipped = [], []
                before = dict(s1b.facts)

                def news(x):
                    return tuple((c, b) for c, b in x.facts.items() if before.get(c) is not b and isinstance(b, bool))
                for s3 in self.assign(g.target, self.elem_of(s1b, it), s1b, fr):
                    oks = [s3]
                    for c in g.ifs:
                        n2 = []
                        for s4 in oks:
                            for s5, b in self.cond(c, s4, fr):
                                if b:
                                    n2.append(s5)
                                else:
                                    skipped.append(news(s5))
                        oks = n2
                    inc.extend(news(s4) for s4 in oks)
                    for s4 in oks:
                        for s5, a5, _ in gen(i + 1, s4, [], False):
                            items.extend(tuple(self.freeze(s5, v) for v in x) for x in a5)
                            its.append(Iteration('n', s5.trace, s5.facts, s5))
                raised = self.raised
                self.raised = outer
                its = list(dict.fromkeys(its))
                tr = pre
                loop = Event('loop', 'comp', it, site=self.site(node, fr), locks=s1.locks,
                             fn=self.stack[-1] if self.stack else None, extra=tuple(its))
                if any(x.trace for x in its) or getattr(self.policy, 'want_loops', False) and self.policy.record(loop):
                    tr = pre + (loop,)
                for s5, e in raised:
                    s5.trace = tr + s5.trace
                    self.raised.append((s5, e))
                s1.trace = tr
                marks = []
                for x in dict.fromkeys(items):
                    marks.append(x)
                fil = mk('filter', tuple(inc), tuple(skipped)) if g.ifs else False
                res.append((s1, acc + [('many', it, tuple(marks), fil)], False))
            return res
        res = []
        for s, acc, exact in gen(0, st, [], True):
            for n, v in saved.items():
                if v is None:
                    s.env.pop((fr.fid, n), None)
                else:
                    s.env[(fr.fid, n)] = v
            if kind == 'dict':
                pairs = []
                for a in acc:
                    if a and a[0] == 'many':
                        pairs.append((STARSTAR, mk('compdict', self.freeze(s, a[1]), a[2], a[3])))
                    else:
                        pairs = self.dict_merge(s, pairs, mk('dict', (a[0], a[1])))
                res.append((s, self.new_dict(s, pairs, node, fr)))
                continue
            elems = []
            for a in acc:
                if a and a[0] == 'many':
                    vals = [x[0] for x in a[2]]
                    elems.append(mk('star', mk('comp', phi(vals) if vals else mk('unknown', 'empty'),
                                               self.freeze(s, a[1]), a[3])))
                else:
                    elems.append(a[0])
            res.append((s, self.new_list(s, elems, node, fr, kind)))
        return res

    # ================================================================== types
    def obj_class(self, st, t):
        tn = self.type_of(st, t)
        if tn and not tn.startswith('ext:'):
            return tn
        if t.op == 'cls':
            return t.args[0]
        return None

    def type_of(self, st, t, depth=0):
        """Project class key of an instance term, 'ext:...' for recognised external types, or None."""
        op = t.op
        if op == 'obj':
            return t.args[0]
        if op == 'sym':
            return t.args[1] if len(t.args) > 1 else None
        if op == 'call':
            n = t.args[0]
            if n.startswith('new '):
                return n[4:]
            if n.endswith('.socket') and n != 'socket.socket' or n == 'zmq.Socket':
                return 'ext:zmq.Socket'
            if looks_like_class(n) and not n.startswith(('.', '@', '()')):
                return 'ext:' + n
            if n in ('.decode', '.encode') and t.args[1] is not None and depth < 6:
                want, give = ('ext:bytes', 'ext:str') if n == '.decode' else ('ext:str', 'ext:bytes')
                if self.type_of(st, t.args[1], depth + 1) == want:
                    return give
            return None
        if op in ('attr', 'mu', 'at') and depth < 6:
            if op != 'attr':
                inner = t.args[1] if op == 'mu' else t.args[0]
                if not isinstance(inner, Term) or inner.op != 'attr':
                    return None
                t = inner
            bt = self.type_of(st, t.args[0], depth + 1)
            if bt and not bt.startswith('ext:'):
                return self.field_types(bt).get(t.args[1])
        if op == 'phi':
            ts = {self.type_of(st, x, depth + 1) for x in t.args if x is not NONE}
            if len(ts) == 1:
                return ts.pop()
        if st is not None:
            for k, v in ((k, v) for k, v in st.facts.items() if v is True and k.op == 'isinst' and k.args[0] is t):
                if k.args[1].op == 'cls':
                    return k.args[1].args[0]
        return None

    def fields_of(self, clskey):
        """Names of the instance fields of a class (assigned on self, or put into self.__dict__)."""
        k = ('fields', clskey)
        r = self._ftypes.get(k)
        if r is not None:
            return r
        names = set()
        for c in self.p.mro(clskey):
            if not isinstance(c, ClassInfo):
                continue
            for m in list(c.methods.values()) + list(c.setters.values()):
                a = m.node.args
                pos = [x.arg for x in a.posonlyargs + a.args]
                if not pos:
                    continue
                s0 = pos[0]
                # local names for the dict of the instance, and for its update method
                isdict = lambda e: isinstance(e, ast.Attribute) and e.attr == '__dict__' or isinstance(e, ast.Name) and e.id in dicts or \
                    isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'vars' and len(e.args) == 1
                isupd = lambda e: isinstance(e, ast.Attribute) and e.attr in ('update', 'setdefault', '__setitem__') and isdict(e.value) or isinstance(e, ast.Name) and e.id in upds
                dicts, upds = set(), set()
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        if isdict(n.value):
                            dicts.add(n.targets[0].id)
                        elif isupd(n.value):
                            upds.add(n.targets[0].id)
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s0:
                        names.add(n.attr)
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isdict(n.value) and isinstance(n.slice, ast.Constant):
                        names.add(n.slice.value)
                    elif isinstance(n, ast.Call) and isupd(n.func) and (isinstance(n.func, ast.Name) or n.func.attr == 'update'):
                        for kw in n.keywords:
                            if kw.arg:
                                names.add(kw.arg)
                        for x in n.args:
                            if isinstance(x, ast.Call):
                                names.update(kw.arg for kw in x.keywords if kw.arg)
                            elif isinstance(x, ast.Dict):
                                names.update(kk.value for kk in x.keys if isinstance(kk, ast.Constant))
                            elif isinstance(x, ast.Name):
                                for y in ast.walk(m.node):
                                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in y.targets):
                                        if isinstance(y.value, ast.Dict):
                                            names.update(kk.value for kk in y.value.keys if isinstance(kk, ast.Constant))
                                        elif isinstance(y.value, ast.Call):
                                            names.update(kw.arg for kw in y.value.keywords if kw.arg)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isupd(n.func) and n.args and isinstance(n.args[0], ast.Constant):
                        names.add(n.args[0].value)
                    elif isinstance(n, ast.Call) and dotted(n.func) in ('setattr', 'object.__setattr__') and len(n.args) == 3 \
                            and isinstance(n.args[1], ast.Constant):
                        names.add(n.args[1].value)
        # methods shadowed by class-level bindings stay methods
        self._ftypes[k] = names
        return names

    def field_types(self, clskey):
        """Field name -> type, from an abstract run of the constructor."""
        k = ('ftypes', clskey)
        r = self._ftypes.get(k)
        if r is not None:
            return r
        self._ftypes[k] = {}
        res = {}
        for f, vs in self.field_values(clskey).items():
            ts = {self.type_of(None, v) for v in vs if v is not NONE}
            if len(ts) == 1:
                t = ts.pop()
                if t:
                    res[f] = t
        self._ftypes[k] = res
        return res

    def field_values(self, clskey):
        """Field name -> set of values stored by the constructor."""
        k = ('fvals', clskey)
        r = self._ftypes.get(k)
        if r is not None:
            return r
        self._ftypes[k] = {}
        res = {}
        init = self.p.find_method(clskey, '__init__')
        if init is not None:
            sub = Interp(self.p, QuietPolicy())
            sub._ftypes = self._ftypes
            sub._gcache = self._gcache
            obj = mk('obj', clskey, 'sym')
            try:
                paths = sub.run(init, self_val=obj)
                for pth in paths:
                    if pth.kind != 'return':
                        continue
                    for (b, kk, n), v in pth.st.heap.items():
                        if b is obj and kk == 'a' and v is not DELETED:
                            for x in (v.args if v.op == 'phi' else (v,)):
                                res.setdefault(n, set()).add(x)
            except AnalysisBroken:
                pass
        self._ftypes[k] = res
        return res

    # ================================================================== freezing
    def freeze_iter(self, st, t):
        if t.op == 'call' and t.args[0] in ('reversed', 'enumerate', 'sorted', 'iter') and t.args[2] and any(x.op == 'alloc' for x in t.args[2]):
            return mk('call', *(t.args[:2] + (tuple(self.freeze(st, x) for x in t.args[2]),) + t.args[3:]))
        return self.freeze(st, t)

    def freeze(self, st, t, depth=0):
        if depth > 12:
            return t
        op = t.op
        if op == 'alloc':
            if t.args[0] in ('list', 'set'):
                c = st.heap.get((t, 'seq', None))
                if c is None:
                    return t
                return mk(t.args[0], *[self.freeze(st, x, depth + 1) for x in c.args])
            if t.args[0] == 'dict':
                c = st.heap.get((t, 'map', None))
                if c is None:
                    return t
                return mk('dict', *[(self.freeze(st, k, depth + 1), self.freeze(st, v, depth + 1)) for k, v in c.args])
            return t
        if op in ('tuple', 'star', 'list', 'set', 'items', 'keys', 'values'):
            return mk(op, *[self.freeze(st, x, depth + 1) for x in t.args])
        if op == 'dict':
            return mk('dict', *[(self.freeze(st, k, depth + 1), self.freeze(st, v, depth + 1)) for k, v in t.args])
        if op == 'many' or op == 'phi':
            return mk(op, *[self.freeze(st, x, depth + 1) for x in t.args])
        if op in ('sym', 'attr', 'item', 'call'):
            mods = [(k[2], v) for k, v in st.heap.items() if k[0] is t and k[1] == 'i']
            if mods:
                mods.sort(key=lambda x: x[0].uid)
                return mk('upd', t, tuple((k, v if v is DELETED else self.freeze(st, v, depth + 1)) for k, v in mods))
        return t

    # ================================================================== calls
    def e_Call(self, node, st, fr):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            ci = fr.cls or (fr.parent.cls if fr.parent else None)
            f = fr
            while f is not None and (f.fi is None or f.fi.cls is None):
                f = f.parent
            if f is not None:
                a = f.fi.node.args
                pos = [x.arg for x in a.posonlyargs + a.args]
                return [(st, mk('super', f.fi.cls.key, st.env[(f.fid, pos[0])]))]
        res = []
        for s, fv in self.eval(node.func, st, fr):
            cur = [(s, [], [])]
            for a in node.args:
                nxt = []
                for s1, av, kv in cur:
                    if isinstance(a, ast.Starred):
                        for s2, v in self.eval(a.value, s1, fr):
                            v = subst(s2, v)
                            el = self.iter_elems(s2, v)
                            nxt.append((s2, av + (list(el) if el is not None else self.star_parts(s2, v)), kv))
                    else:
                        for s2, v in self.eval(a, s1, fr):
                            nxt.append((s2, av + [subst(s2, v)], kv))
                cur = nxt
            for k in node.keywords:
                nxt = []
                for s1, av, kv in cur:
                    for s2, v in self.eval(k.value, s1, fr):
                        v = subst(s2, v)
                        if k.arg is None:
                            m = map_content(s2, v)
                            add = []
                            if m is not None:
                                for kk, vv in m:
                                    if kk is STARSTAR:
                                        add.append((None, vv))
                                    elif is_const(kk):
                                        add.append((kk.args[1], vv))
                            else:
                                add.append((None, v))
                            names = {n for n, _ in add if n}
                            nxt.append((s2, av, [x for x in kv if x[0] is None or x[0] not in names] + add))
                        else:
                            nxt.append((s2, av, kv + [(k.arg, v)]))
                cur = nxt
            for s1, av, kv in cur:
                for s2, v in self.call(s1, subst(s1, fv), av, kv, node, fr):
                    res.append((s2, subst(s2, v)))
        return res

    def star_parts(self, st, v):
        c = seq_content(st, v)
        if c is not None:
            return list(c)
        return [mk('star', v)]

    def call(self, st, fv, args, kwargs, node, fr):
        """[(state, result)]; exceptional outcomes go to self.raised."""
        h = self.policy.call_hook(self, st, fv, args, kwargs, node, fr)
        if h is not None:
            return h
        op = fv.op
        if op == 'func':
            return self.call_func(st, fv, args, kwargs, node, fr)
        if op == 'bound':
            f, slf = fv.args
            return self.call_func(st, f, [slf] + args, kwargs, node, fr)
        if op == 'cls':
            return self.instantiate(st, fv, args, kwargs, node, fr)
        if op == 'partial':
            f, a, k = fv.args
            return self.call(st, f, list(a) + args, [x for x in k if x[0] not in {n for n, _ in kwargs}] + kwargs, node, fr)
        if op == 'ext':
            return self.call_ext(st, fv.args[0], None, args, kwargs, node, fr)
        if op == 'extbound':
            return self.call_ext(st, fv.args[0], fv.args[1], args, kwargs, node, fr)
        if op == 'attr':
            b, name = fv.args
            if b.op == 'mod' or (b.op == 'cls' and not name.startswith('__')):
                return self.call_ext(st, '()', fv, args, kwargs, node, fr)
            bt = self.type_of(st, b)
            if bt and not bt.startswith('ext:') and name in self.fields_of(bt):
                return self.call_ext(st, '()', fv, args, kwargs, node, fr)
            if b.op == 'cls':
                return self.call_ext(st, '.' + name, b, args, kwargs, node, fr)
            return self.call_ext(st, '.' + name, b, args, kwargs, node, fr)
        if op == 'phi':
            out = []
            if len(fv.args) <= 6:
                for x in fv.args:
                    s2 = st.fork()
                    s2.facts[mk('=', fv)] = x
                    out.extend(self.call(s2, x, list(args), list(kwargs), node, fr))
                return out
        tn = self.type_of(st, fv)
        if tn and not tn.startswith('ext:'):
            m = self.p.find_method(tn, '__call__')
            if m is not None:
                return self.call_func(st, mk('func', m.key, None), [fv] + args, kwargs, node, fr)
        return self.call_ext(st, '()', fv, args, kwargs, node, fr)

    def call_func(self, st, fv, args, kwargs, node, fr):
        fi = self.p.funcs[fv.args[0]]
        return self.call_fi(fi, fv, st, args, kwargs, node, fr)

    def call_fi(self, fi, fv, st, args, kwargs, node, fr):
        fv = fv or mk('func', fi.key, None)
        depth = self.stack.count(fi.key)
        if self.policy.opaque(fi) or depth >= 2 or len(self.stack) > self.policy.max_depth:
            name = '@' + fi.key.split(':')[1]
            recv = None
            if fi.cls is not None and not fi.is_static and args:
                recv, args = args[0], args[1:]
            ps = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args][0 if fi.cls is None or fi.is_static else 1:]
            if kwargs and not any(a.op == 'star' for a in args):
                named = dict(kwargs)
                args = list(args)
                while len(args) < len(ps) and ps[len(args)] in named:
                    args.append(named.pop(ps[len(args)]))
                kwargs = [(k, v) for k, v in kwargs if k in named]
            return self.call_ext(st, name, recv, args, kwargs, node, fr)
        if fi.decorators and not self.known_decorators(fi):
            r = self.decorated_call(fi, fv, st, args, kwargs, node, fr)
            if r is not None:
                return r
        if fi.is_gen:
            g = mk('gen', fv, tuple(self.freeze(st, a) for a in args) + tuple((k, self.freeze(st, v)) for k, v in kwargs),
                   st.occ(('gen', self.site(node, fr))))
            self.gen_args[g] = (list(args), list(kwargs))
            return [(st, g)]
        res = []
        for s, fr2 in self.bind(fi, fv, st, args, kwargs, fr):
            saved_h = self.yield_handlers
            self.yield_handlers = []
            try:
                m = len(self.raised)
                outs = self.exec_body(fi, s, fr2)
                for i in range(m, len(self.raised)):
                    self.drop_frame(self.raised[i][0], fr2)
                if len(self.raised) - m > 1:
                    self.raised[m:] = self.dedupe_raised(self.raised[m:])
            finally:
                self.yield_handlers = saved_h
            for o in outs:
                self.drop_frame(o.st, fr2)
                if o.kind == 'x':
                    self.raised.append((o.st, o.val))
            rs = self.compact([Out('r', o.st, o.val if o.kind == 'r' else NONE) for o in outs if o.kind in ('r', 'n')])
            res.extend((o.st, o.val) for o in rs)
        if any(d and d.split('.')[-1] in ('lru_cache', 'cache', 'cached_property') for d in fi.decorators):
            old = mk('sym', 'earlier result of %s' % fi.key)
            res = [(s, v if is_const(v) else mk('phi', v, old)) for s, v in res]
        return res

    def known_decorators(self, fi):
        for d in fi.decorators:
            if d is None:
                return False
            l = d.split('.')[-1]
            if d == 'atexit.register' or l in ('staticmethod', 'classmethod', 'property', 'contextmanager', 'setter', 'wraps', 'lru_cache', 'cache',
                     'cached_property', 'abstractmethod', 'overload', 'getter', 'deleter', 'Slot', 'pyqtSlot'):
                continue
            return False
        return True

    def decorated_call(self, fi, fv, st, args, kwargs, node, fr):
        """Call through project-defined decorators."""
        if ('dec', fi.key) in [x for x in self.loop_stack if isinstance(x, tuple)]:
            return None
        decs = [d for d in fi.node.decorator_list]
        cur = [(st, mk('rawfunc', fv))]
        mfr = self.new_frame(None, None, fi.module)
        val = fv
        outs = [(st, fv)]
        self.loop_stack.append(('dec', fi.key))
        try:
            for d in reversed(decs):
                nm = dotted(d.func if isinstance(d, ast.Call) else d)
                if nm and nm.split('.')[-1] in ('staticmethod', 'classmethod', 'property'):
                    continue
                nxt = []
                for s, f in outs:
                    for s2, dv in self.eval(d, s, mfr):
                        if dv.op not in ('func', 'partial', 'bound'):
                            return None
                        nxt.extend(self.call(s2, dv, [f], [], node, fr))
                outs = nxt
            res = []
            for s, f in outs:
                res.extend(self.call(s, f, list(args), list(kwargs), node, fr))
            return res
        finally:
            self.loop_stack.pop()

    def drop_frame(self, st, fr):
        if fr.closure:
            return
        for k in [k for k in st.env if k[0] == fr.fid]:
            del st.env[k]

    def bind(self, fi, fv, st, args, kwargs, fr):
        """[(state, frame)] with parameters bound."""
        parent = self.frames.get(fv.args[1]) if fv.args[1] is not None else None
        f2 = self.new_frame(fi, parent)
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for p, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[p] = d
        vals = {}
        rest = []
        i = 0
        args = list(args)
        unknown_star = None
        for n, v in enumerate(args):
            if is_star(v):
                unknown_star = v.args[0]
                cnt = 0
                while i < len(params) and len(args) - n - 1 < len(params) - i and params[i] not in dict(kwargs):
                    if params[i] in defaults:
                        vals[params[i]] = mk('item', v.args[0], const(cnt))
                    else:
                        vals[params[i]] = mk('item', v.args[0], const(cnt))
                    i += 1
                    cnt += 1
                rest.append(mk('star', v.args[0] if cnt == 0 else mk('item', v.args[0], mk('slice', const(cnt), NONE, NONE))))
                continue
            if i < len(params):
                vals[params[i]] = v
                i += 1
            else:
                rest.append(v)
        if rest and not a.vararg and not any(is_star(x) for x in rest):
            self.throw_kind(st, 'TypeError')
            return []
        kwpairs = []
        unknown_kw = []
        for k, v in kwargs:
            if k is None:
                unknown_kw.append(v)
            elif (k in params or k in kwonly):
                if k in vals and not unknown_star:
                    self.throw_kind(st, 'TypeError')
                    return []
                vals[k] = v
            else:
                kwpairs.append((const(k), v))
        if kwpairs and not a.kwarg:
            self.throw_kind(st, 'TypeError')
            return []
        for p in params + kwonly:
            if p in vals:
                continue
            d = None
            if p in defaults:
                hv = st.heap.get((fv, 'd', p))
                if hv is not None:
                    d = hv
                else:
                    dfr = parent or self.new_frame(None, None, fi.module)
                    rs = self.eval(defaults[p], st.fork(), dfr)
                    d = rs[0][1] if rs else mk('unknown', 'default')
                    if d.op == 'alloc':
                        d = self.copy_alloc(st, rs[0][0], d)
            v = None
            for u in unknown_kw:
                hv = st.heap.get((u, 'i', const(p)))
                if hv is not None and hv is not DELETED:
                    v = hv
                    break
                if hv is DELETED or self.logic._in(st, const(p), u) is False:
                    continue
                if u.op == 'upd':
                    dd = dict(u.args[1])
                    if const(p) in dd:
                        if dd[const(p)] is not DELETED:
                            v = dd[const(p)]
                            break
                        continue
                v = mk('get', u, const(p), d if d is not None else NONE)
                break
            if v is None:
                v = d
            if v is None:
                self.throw_kind(st, 'TypeError')
                return []
            vals[p] = v
        for p, v in vals.items():
            st.env[(f2.fid, p)] = v
        if a.vararg:
            st.env[(f2.fid, a.vararg.arg)] = mk('tuple', *rest)
        if a.kwarg:
            if not kwpairs and len(unknown_kw) == 1:
                # hand the caller's unknown mapping on (a copy, whose explicit keys are consumed)
                u = unknown_kw[0]
                used = [p for p in params + kwonly if p in vals and vals[p].op == 'get' and vals[p].args[0] is u]
                st.env[(f2.fid, a.kwarg.arg)] = mk('kwrest', u, tuple(sorted(used))) if used else self.freeze(st, u)
            else:
                d = mk('alloc', 'dict', '%s:kwargs' % fi.key, st.occ(('kw', fi.key)))
                pairs = [(STARSTAR, self.freeze(st, u)) for u in unknown_kw] + list(kwpairs)    # (keys are disjoint)
                st.heap[(d, 'map', None)] = mk('content', *pairs)
                st.env[(f2.fid, a.kwarg.arg)] = d
        return [(st, f2)]

    def copy_alloc(self, st, src, a):
        for k, v in src.heap.items():
            if k[0] is a:
                st.heap[k] = v
        return a

    def instantiate(self, st, cv, args, kwargs, node, fr):
        key = cv.args[0]
        if key not in self.p.classes:
            return self.call_ext(st, key, None, args, kwargs, node, fr)
        init = self.p.find_method(key, '__init__')
        fz = tuple(self.freeze(st, a) for a in args)
        kz = tuple((k or '**', self.freeze(st, v)) for k, v in kwargs)
        if (init is not None and self.policy.opaque(init)) or getattr(self.policy, 'opaque_class', lambda k: False)(key):
            v = mk('call', 'new ' + key, None, fz, kz, st.occ(('new', self.site(node, fr))))
            ev = self.event('call', 'new ' + key.split(':')[1], cv, fz, kz, v, node, fr, st, raw=tuple(args))
            self.may_raise(st, ev)
            self.emit(st, ev)
            return [(st, v)]
        o = mk('obj', key, '%s:%d:%d#%d' % (fr.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                                          st.occ(('new', self.site(node, fr), len(self.stack)))))
        ev = self.event('new', key.split(':')[1], cv, fz, kz, o, node, fr, st, raw=tuple(args))
        self.emit(st, ev)
        if init is None:
            eb = self.p.ext_bases(key)
            if eb and any(self.h.issub(b, 'BaseException') for b in eb):
                return [(st, o)]
            for i, a in enumerate(args):
                st.heap[(o, 'a', 'arg%d' % i)] = a
            return [(st, o)]
        return [(s, o) for s, _ in self.call_fi(init, None, st, [o] + args, kwargs, node, fr)]

    # ---- external calls -----------------------------------------------------------------------
    def call_ext(self, st, name, recv, args, kwargs, node, fr):
        name = norm_ext(name)
        if recv is not None:
            recv0 = recv
            recv = subst(st, recv)
        b = getattr(self, 'x_' + name.replace('.', '_').lstrip('_') if not name.startswith('.') else 'm_' + name[1:], None)
        if b is not None and not name.startswith(('@', '(')):
            r = b(st, recv, args, kwargs, node, fr)
            if r is not None:
                return r
        return self.generic_call(st, name, recv, args, kwargs, node, fr)

    def generic_call(self, st, name, recv, args, kwargs, node, fr, value=None, n=None):
        fz = tuple(self.freeze(st, a) for a in args)
        kz = tuple((k or '**', self.freeze(st, v)) for k, v in kwargs)
        fr_recv = recv
        if recv is not None and recv.op in ('alloc', 'tuple', 'list', 'dict'):
            fr_recv = self.freeze(st, recv)
        elif recv is not None and self.policy_pure(name):
            fr_recv = self.freeze(st, recv)
        pure = self.policy_pure(name)
        if value is None:
            occ = None if pure else st.occ((name, self.site(node, fr)))
            value = mk('call', name, fr_recv, fz, kz, None if pure else (self.site(node, fr)[1:], occ))
            ev = self.event('call', name, fr_recv, fz, kz, value, node, fr, st, raw=tuple(args), extra=None)
            r = self.policy.result(ev, st)
            if r is not None:
                value = r
        ev = self.event('call', name, fr_recv, fz, kz, value, node, fr, st, raw=tuple(args))
        if recv is not None and recv.op in ('alloc', 'obj'):
            ev.raw = (recv,) + ev.raw
        if self.policy.bump(ev):
            st.epoch += 1
        self.may_raise(st, ev)
        self.emit(st, ev)
        if 'NORETURN' in self.policy.raises(ev, st):
            return []
        if name in ('sys.exit', 'exit', 'quit'):
            self.throw_kind(st, 'SystemExit', fz[0] if fz else NONE)
            return []
        if name == 'os._exit':
            self.throw(st, mk('exc', 'os._exit', False, (), mk('os._exit', *fz)))    # (no handler or finally runs)
            return []
        return [(st, value)]

    def policy_pure(self, name):
        if name.startswith('.'):
            return name[1:] in PURE_METHODS
        return name in PURE

    # ---- builtins
    def x_len(self, st, recv, args, kwargs, node, fr):
        if len(args) != 1:
            return None
        a = args[0]
        if a is NONE:
            self.throw_kind(st, 'TypeError')
            return []
        c = seq_content(st, a)
        if c is not None and not any(is_star(x) for x in c):
            return [(st, const(len(c)))]
        m = map_content(st, a)
        if m is not None and not any(k is STARSTAR for k, v in m):
            return [(st, const(len(m)))]
        if is_const(a) and isinstance(a.args[1], (str, bytes)):
            return [(st, const(len(a.args[1])))]
        tn = self.type_of(st, a)
        if tn and not tn.startswith('ext:'):
            m = self.p.find_method(tn, '__len__')
            if m is not None:
                return self.call(st, mk('bound', mk('func', m.key, None), a), [], [], node, fr)
        base = a if a.op == 'alloc' else self.freeze(st, a)
        return [(st, mk('call', 'len', None, (base,), (), None))]

    def x_isinstance(self, st, recv, args, kwargs, node, fr):
        if len(args) != 2:
            return None
        t, c = args
        cc = seq_content(st, c)
        if cc is not None:
            c = mk('tuple', *cc)
        if c.op == 'call' and c.args[0] == 'type' and c.args[2] and c.args[2][0] is NONE:
            c = ext('NoneType')
        if c.op == 'tuple' and len(c.args) == 1:
            c = c.args[0]
        return [(st, mk('isinst', t, c))]

    def x_exec(self, st, recv, args, kwargs, node, fr):
        """The code may define anything in the namespaces it is given."""
        for a in list(args[1:]) + [v for _, v in kwargs]:
            m = map_content(st, a)
            if m is not None and a.op == 'alloc':
                st.heap[(a, 'map', None)] = mk('content', *(list(m) + [(STARSTAR, mk('executed', self.freeze(st, args[0])))]))
        return None

    def x_type(self, st, recv, args, kwargs, node, fr):
        if len(args) == 1:
            if args[0] is NONE:
                return [(st, ext('NoneType'))]
            tn = self.type_of(st, args[0])
            if tn and not tn.startswith('ext:') and args[0].op == 'obj':
                return [(st, mk('cls', tn))]
        return None

    def x_bool(self, st, recv, args, kwargs, node, fr):
        if len(args) == 1:
            return [(s, TRUE if b else FALSE) for s, b in self.cond_value(st, args[0], node, fr)]

    def x_getattr(self, st, recv, args, kwargs, node, fr):
        if len(args) < 2 or not is_const(args[1]):
            # dispatch on a computed attribute name
            if len(args) >= 2 and args[1].op == 'bin' and args[1].args[0] == '+' and is_const(args[1].args[1]):
                args = [args[0], mk('fstr', args[1].args[1], args[1].args[2])] + list(args[2:])
            if len(args) >= 2 and args[1].op == 'fstr':
                return self.getattr_dispatch(st, args, node, fr)
            return None
        b, name = args[0], args[1].args[1]
        tn = self.type_of(st, b)
        if tn and not tn.startswith('ext:'):
            known = self.p.find_method(tn, name) or name in self.fields_of(tn) or self.p.find_class_attr(tn, name)
            if known or self.p.find_method(tn, '__getattr__'):
                return self.get_attr(st, b, name, node, fr)
            if len(args) > 2 and b.op == 'obj' and not [x for x in self.p.ext_bases(tn) if x != 'object']:
                return [(st, args[2])]
            if len(args) > 2 and b.op == 'obj' and name.startswith('_') and not any(name in c.methods for c in self.p.classes.values()) and not self.p.attr_stores.get(name):
                return [(st, args[2])]      # a private name that nothing in the project defines
        if b.op == 'mod' and self.p.resolve(b.args[0], name):
            return self.get_attr(st, b, name, node, fr)
        if b.op == 'cls' and (self.p.find_method(b.args[0], name) or self.p.find_class_attr(b.args[0], name)):
            return self.get_attr(st, b, name, node, fr)
        if len(args) > 2:
            return [(st, mk('getattr', b, name, self.freeze(st, args[2])))]
        if isinstance(name, str) and isinstance(node, ast.Call) and len(node.args) == 2 and not isinstance(node.args[1], ast.Constant):
            return self.get_attr(st, b, name, node, fr)     # a name given by a caller in the project
        return None

    def getattr_dispatch(self, st, args, node, fr):
        b, nm = args[0], args[1]
        tn = self.type_of(st, b)
        if not tn or tn.startswith('ext:'):
            return None
        pre = nm.args[0].args[1] if nm.args[0].op == 'const' else ''
        if len(nm.args) != 2 or not pre:
            return None
        var = nm.args[1]
        names = set()
        for c in self.p.mro(tn):
            if isinstance(c, ClassInfo):
                names.update(n for n in c.methods if n.startswith(pre))
        out = []
        cur = [st]
        for n in sorted(names):
            nxt = []
            for s in cur:
                for s2, e in self.branch(s, eq_atom(subst(s, var), const(n[len(pre):]))):
                    if e:
                        out.extend(self.get_attr(s2, b, n, node, fr))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            if len(args) > 2:
                out.append((s, args[2]))
            else:
                self.throw_kind(s, 'AttributeError')
        return out

    def x_hasattr(self, st, recv, args, kwargs, node, fr):
        if len(args) == 2 and is_const(args[1]):
            tn = self.type_of(st, args[0])
            if tn and not tn.startswith('ext:'):
                name = args[1].args[1]
                if (args[0], 'a', name) in st.heap or self.p.find_method(tn, name) or self.p.find_class_attr(tn, name):
                    return [(st, TRUE)]
        return None

    def x_setattr(self, st, recv, args, kwargs, node, fr):
        if len(args) == 3 and is_const(args[1]):
            return [(s, NONE) for s in self.set_attr(st, args[0], args[1].args[1], args[2], node, fr)]

    def x_object___setattr__(self, st, recv, args, kwargs, node, fr):
        if len(args) == 3 and is_const(args[1]):
            self.write_attr(st, args[0], args[1].args[1], args[2], node, fr)
            return [(st, NONE)]

    def x_object___init__(self, st, recv, args, kwargs, node, fr):
        return [(st, NONE)]

    def x_object___getattribute__(self, st, recv, args, kwargs, node, fr):
        if len(args) == 2 and is_const(args[1]):
            v = st.heap.get((args[0], 'a', args[1].args[1]))
            return [(st, v if v is not None and v is not DELETED else mk('attr', args[0], args[1].args[1]))]

    def x_str(self, st, recv, args, kwargs, node, fr):
        if len(args) == 1 and not kwargs:
            a = args[0]
            self.formatting(st, args, node, fr)
            if is_const(a) and not isinstance(a.args[1], bytes):
                return [(st, const(str(a.args[1])))]
            if a.op == 'fstr':
                return [(st, a)]

    def x_int(self, st, recv, args, kwargs, node, fr):
        if len(args) == 1 and is_const(args[0]) and isinstance(args[0].args[1], (int, float, str, bytes)):
            try:
                return [(st, const(int(args[0].args[1])))]
            except ValueError:
                pass

    def x_float(self, st, recv, args, kwargs, node, fr):
        if len(args) == 1 and is_const(args[0]) and isinstance(args[0].args[1], (int, float)):
            return [(st, const(float(args[0].args[1])))]

    def x_dict(self, st, recv, args, kwargs, node, fr):
        pairs = []
        if args:
            pairs = self.dict_merge(st, pairs, args[0])
        for k, v in kwargs:
            if k is None:
                pairs = self.dict_merge(st, pairs, v)
            else:
                pairs = [p for p in pairs if p[0] is not const(k)] + [(const(k), v)]
        return [(st, self.new_dict(st, pairs, node, fr))]

    x_collections_OrderedDict = x_dict

    def x_list(self, st, recv, args, kwargs, node, fr):
        if not args:
            return [(st, self.new_list(st, [], node, fr))]
        el = self.iter_elems(st, args[0])
        if el is None:
            el = list(self.star_parts(st, args[0]))
        return [(st, self.new_list(st, el, node, fr))]

    def x_set(self, st, recv, args, kwargs, node, fr):
        if not args:
            return [(st, self.new_list(st, [], node, fr, 'set'))]
        el = self.iter_elems(st, args[0])
        if el is None:
            el = list(self.star_parts(st, args[0]))
        return [(st, self.new_list(st, el, node, fr, 'set'))]

    def x_tuple(self, st, recv, args, kwargs, node, fr):
        if not args:
            return [(st, mk('tuple'))]
        el = self.iter_elems(st, args[0])
        if el is not None:
            return [(st, mk('tuple', *el))]
        c = seq_content(st, args[0])
        if c is not None:
            return [(st, mk('tuple', *c))]
        return None

    def x_enumerate(self, st, recv, args, kwargs, node, fr):
        return [(st, mk('call', 'enumerate', None, tuple(args), tuple((k, v) for k, v in kwargs), None))]

    def x_zip(self, st, recv, args, kwargs, node, fr):
        return [(st, mk('call', 'zip', None, tuple(args), (), None))]

    def x_reversed(self, st, recv, args, kwargs, node, fr):
        return [(st, mk('call', 'reversed', None, tuple(args), (), None))]

    def x_super(self, st, recv, args, kwargs, node, fr):
        if len(args) == 2 and args[0].op == 'cls':
            return [(st, mk('super', args[0].args[0], args[1]))]

    def x_next(self, st, recv, args, kwargs, node, fr):
        return None

    def x_any(self, st, recv, args, kwargs, node, fr):
        return self._anyall(st, args, True)

    def x_all(self, st, recv, args, kwargs, node, fr):
        return self._anyall(st, args, False)

    def _anyall(self, st, args, is_any):
        if len(args) != 1:
            return None
        el = self.iter_elems(st, args[0])
        if el is None or len(el) > 24:
            return None
        out = []
        cur = [st]
        for x in el:
            nxt = []
            for s in cur:
                for s2, b in (self.branch_isinst(s, x.args[0], x.args[1]) if x.op == 'isinst' else self.branch(s, x)):
                    if b == is_any:
                        out.append((s2, TRUE if is_any else FALSE))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, FALSE if is_any else TRUE) for s in cur]

    def x_functools_reduce(self, st, recv, args, kwargs, node, fr):
        c = seq_content(st, args[1]) if len(args) > 1 else None
        if c is None or any(is_star(x) for x in c):
            return None
        items = list(c)
        if len(args) > 2:
            items.insert(0, args[2])
        if not items:
            return None
        cur = [(st, items[0])]
        for x in items[1:]:
            cur = [r for s, v in cur for r in self.call(s, args[0], [v, x], [], node, fr)]
        return cur

    def x_functools_partial(self, st, recv, args, kwargs, node, fr):
        return [(st, mk('partial', args[0], tuple(args[1:]), tuple(kwargs)))]

    def x_sys_exc_info(self, st, recv, args, kwargs, node, fr):
        if not st.excs:
            return [(st, mk('tuple', NONE, NONE, NONE))]
        e = st.excs[-1]
        return [(st, mk('tuple', mk('exctype', e), e, mk('exctb', e)))]

    def x_sys_exception(self, st, recv, args, kwargs, node, fr):
        return [(st, st.excs[-1] if st.excs else NONE)]

    def x_traceback_format_exc(self, st, recv, args, kwargs, node, fr):
        e = st.excs[-1] if st.excs else NONE
        return [(st, mk('call', 'traceback.format_exc', None, (e,), (), None))]

    def x_callable(self, st, recv, args, kwargs, node, fr):
        if args and args[0].op in ('func', 'bound', 'cls', 'partial'):
            return [(st, TRUE)]

    def x_typing_cast(self, st, recv, args, kwargs, node, fr):
        return [(st, args[1])] if len(args) == 2 else None

    # ---- methods of containers
    def m_append(self, st, recv, args, kwargs, node, fr):
        if recv.op == 'alloc' and recv.args[0] in ('list', 'set') and len(args) == 1:
            c = st.heap.get((recv, 'seq', None))
            if c is not None:
                self.generic_call(st, '.append', recv, args, kwargs, node, fr, value=NONE)
                st.heap[(recv, 'seq', None)] = mk('content', *(c.args + (args[0],)))
                return [(st, NONE)]

    def m_add(self, st, recv, args, kwargs, node, fr):
        if recv.op == 'alloc' and recv.args[0] == 'set' and len(args) == 1:
            c = st.heap.get((recv, 'seq', None))
            if c is not None:
                self.generic_call(st, '.add', recv, args, kwargs, node, fr, value=NONE)
                if args[0] not in c.args:
                    st.heap[(recv, 'seq', None)] = mk('content', *(c.args + (args[0],)))
                return [(st, NONE)]

    def m_extend(self, st, recv, args, kwargs, node, fr):
        if recv.op == 'alloc' and recv.args[0] == 'list' and len(args) == 1:
            self.generic_call(st, '.extend', recv, args, kwargs, node, fr, value=NONE)
            self.list_extend(st, recv, args[0])
            return [(st, NONE)]

    def m_insert(self, st, recv, args, kwargs, node, fr):
        if recv.op == 'alloc' and recv.args[0] == 'list' and len(args) == 2:
            c = st.heap.get((recv, 'seq', None))
            if c is not None and is_const(args[0]) and not any(is_star(x) for x in c.args):
                self.generic_call(st, '.insert', recv, args, kwargs, node, fr, value=NONE)
                l = list(c.args)
                l.insert(args[0].args[1], args[1])
                st.heap[(recv, 'seq', None)] = mk('content', *l)
                return [(st, NONE)]

    def m_update(self, st, recv, args, kwargs, node, fr):
        other = []
        if args:
            other = self.dict_merge(st, [], args[0])
        for k, v in kwargs:
            if k is None:
                other = self.dict_merge(st, other, v)
            else:
                other.append((const(k), v))
        if recv.op == 'objdict':
            for k, v in other:
                if k is not STARSTAR and is_const(k):
                    self.write_attr(st, recv.args[0], k.args[1], v, node, fr)
            return [(st, NONE)]
        m = map_content(st, recv)
        if m is not None and recv.op == 'alloc':
            self.generic_call(st, '.update', recv, args, kwargs, node, fr, value=NONE)
            st.heap[(recv, 'map', None)] = mk('content', *self.dict_merge(st, list(m), mk('dict', *other)))
            return [(st, NONE)]
        if recv.op not in ('alloc',) and other and all(k is not STARSTAR for k, v in other):
            self.generic_call(st, '.update', recv, args, kwargs, node, fr, value=NONE)
            for k, v in other:
                self.store_item(st, recv, k, v)
            return [(st, NONE)]

    def m_get(self, st, recv, args, kwargs, node, fr):
        if not args or len(args) > 2 or (recv.op == 'call' and 'Queue' in recv.args[0]):
            return None
        if kwargs:
            return None
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        return self._dict_get(st, recv, k, d, node, fr, '.get')

    def _dict_get(self, st, recv, k, d, node, fr, name, emit=True):
        tn = self.type_of(st, recv)
        if tn:
            return None
        if emit:
            self.generic_call(st, name, recv, [k, d], [], node, fr, value=mk('item', recv, k))
        m = map_content(st, recv)
        if m is not None:
            r = self.dict_lookup(st, m, k)
            if r is not None:
                return [(st, r[1] if r[0] else d)]
            if len(m) <= 24 and not any(kk is STARSTAR for kk, v in m):
                out = []
                cur = [st]
                for kk, vv in m:
                    nxt = []
                    for s in cur:
                        for s2, eq in self.branch(s, eq_atom(subst(s, k), kk)):
                            (out.append((s2, vv)) if eq else nxt.append(s2))
                    cur = nxt
                return out + [(s, d) for s in cur]
        hv = st.heap.get((recv, 'i', k))
        if hv is DELETED:
            return [(st, d)]
        if hv is not None:
            if hv.op == 'maybe':
                return [(st.fork(), phi(hv.args)), (st, d)]
            return [(st, hv)]
        frk = self.freeze(st, k)
        frr = recv if recv.op != 'alloc' else self.freeze(st, recv)
        out = []
        for s, b in self.branch(st, mk('in', k, recv)):
            out.append((s, mk('item', frr, frk) if b else d))
        return out

    def m_pop(self, st, recv, args, kwargs, node, fr):
        if kwargs:
            return None
        if recv.op == 'alloc' and recv.args[0] == 'list':
            c = st.heap.get((recv, 'seq', None))
            if c is not None and not any(is_star(x) for x in c.args) and (not args or is_const(args[0])):
                i = args[0].args[1] if args else -1
                if not c.args:
                    self.throw_kind(st, 'IndexError')
                    return []
                l = list(c.args)
                v = l.pop(i)
                st.heap[(recv, 'seq', None)] = mk('content', *l)
                return [(st, v)]
            return None
        if not args or (is_const(args[0]) and isinstance(args[0].args[1], int)):
            return None
        k = args[0]
        tn = self.type_of(st, recv)
        if tn:
            return None
        if recv.op == 'objdict':
            return None
        if len(args) == 2:
            sent = mk('popdefault')
            ev = self.event('call', '.pop', recv, tuple(self.freeze(st, a) for a in args), (), mk('item', recv, k), node, fr, st)
            self.emit(st, ev)
            rs = self._dict_get(st, recv, k, sent, node, fr, '.pop', emit=False)
            out = []
            for s, v in rs or []:
                if v is sent:
                    out.append((s, args[1]))
                else:
                    self.store_item(s, recv, k, DELETED)
                    out.append((s, v))
            return out
        ev = self.event('call', '.pop', recv, (self.freeze(st, k),), (), mk('item', recv, k), node, fr, st)
        rs = self.get_item(st, recv, k, node, fr)
        out = []
        for s, v in rs:
            self.emit(s, ev)
            self.store_item(s, recv, k, DELETED)
            out.append((s, v))
        return out

    def m_setdefault(self, st, recv, args, kwargs, node, fr):
        if kwargs or not args:
            return None
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        sent = mk('popdefault')
        ev = self.event('call', '.setdefault', recv, tuple(self.freeze(st, a) for a in args), (), mk('item', recv, k), node, fr, st)
        self.emit(st, ev)
        rs = self._dict_get(st, recv, k, sent, node, fr, '.setdefault', emit=False)
        if rs is None:
            return None
        out = []
        for s, v in rs:
            if v is sent:
                self.store_item(s, recv, k, d)
                out.append((s, d))
            else:
                out.append((s, v))
        return out

    def m_clear(self, st, recv, args, kwargs, node, fr):
        self.generic_call(st, '.clear', recv, args, kwargs, node, fr, value=NONE)
        if recv.op == 'alloc':
            for kind in ('seq', 'map'):
                if (recv, kind, None) in st.heap:
                    st.heap[(recv, kind, None)] = mk('content')
        for kk in [x for x in st.heap if x[0] is recv and x[1] == 'i']:
            del st.heap[kk]
        return [(st, NONE)]

    def m_copy(self, st, recv, args, kwargs, node, fr):
        if args or kwargs:
            return None
        m = map_content(st, recv)
        if m is not None:
            return [(st, self.new_dict(st, m, node, fr))]
        c = seq_content(st, recv)
        if c is not None:
            return [(st, self.new_list(st, c, node, fr))]
        if recv.op in ('attr', 'sym', 'item', 'objdict', 'upd', 'mu') and not self.type_of(st, recv):
            return [(st, self.new_dict(st, [(STARSTAR, self.freeze(st, recv))], node, fr))] if self.dictish(st, recv) else None
        return None

    def dictish(self, st, t):
        if t.op == 'objdict':
            return True
        if t.op == 'attr' and t.args[1] == '__dict__':
            return True
        if t.op == 'attr':
            bt = self.type_of(st, t.args[0])
            if bt and not bt.startswith('ext:'):
                vs = self.field_values(bt).get(t.args[1], ())
                return bool(vs) and all(v.op == 'alloc' and v.args[0] == 'dict' for v in vs)
        return False

    def m_items(self, st, recv, args, kwargs, node, fr):
        v = mk('items', recv)
        self.emit(st, self.event('call', '.items', recv, (), (), v, node, fr, st))
        return [(st, v)]

    def m_keys(self, st, recv, args, kwargs, node, fr):
        v = mk('keys', recv)
        self.emit(st, self.event('call', '.keys', recv, (), (), v, node, fr, st))
        return [(st, v)]

    def m_values(self, st, recv, args, kwargs, node, fr):
        v = mk('values', recv)
        self.emit(st, self.event('call', '.values', recv, (), (), v, node, fr, st))
        return [(st, v)]

    def m_format(self, st, recv, args, kwargs, node, fr):
        self.formatting(st, list(args) + [v for k, v in kwargs], node, fr)
        if is_const(recv) and isinstance(recv.args[1], str):
            import string
            parts = []
            auto = 0
            try:
                for lit_, field, spec, conv in string.Formatter().parse(recv.args[1]):
                    parts.append(const(lit_))
                    if field is None:
                        continue
                    if field == '' or field.isdigit():
                        i = auto if field == '' else int(field)
                        auto += 1
                        if i >= len(args) or is_star(args[i]):
                            return None
                        a = args[i]
                    else:
                        d = dict((k, v) for k, v in kwargs if k)
                        if field not in d:
                            unk = [v for k, v in kwargs if k is None]
                            if not unk:
                                self.throw_kind(st, 'KeyError')
                                return []
                            self.emit(st, self.event('formatkey', field, unk[0], (), (), None, node, fr, st))
                            known = self.logic._in(st, const(field), unk[0])
                            if known is not True:
                                self.may_raise(st, self.event('getitem', 'getitem', unk[0], (const(field),), (), None, node, fr, st))
                            a = mk('item', unk[0], const(field))
                        else:
                            a = d[field]
                    parts.append(self.freeze(st, a))
            except ValueError:
                return None
            return [(st, fstr(parts))]

    def m_join(self, st, recv, args, kwargs, node, fr):
        if is_const(recv) and isinstance(recv.args[1], str) and len(args) == 1:
            el = self.iter_elems(st, args[0])
            if el is not None and not any(is_star(x) for x in el):
                parts = []
                for i, x in enumerate(el):
                    if i:
                        parts.append(recv)
                    parts.append(self.freeze(st, x))
                return [(st, fstr(parts))]

    def m_encode(self, st, recv, args, kwargs, node, fr):
        if is_const(recv) and isinstance(recv.args[1], str) and not args and not kwargs:
            return [(st, const(recv.args[1].encode()))]
        if not kwargs and (not args or (is_const(args[0]) and str(args[0].args[1]).lower().replace('-', '') == 'utf8')):
            args = []
        # x.decode().encode() is x
        if not args and not kwargs and recv.op == 'call' and recv.args[0] == '.decode' and not recv.args[2] and not recv.args[3]:
            return [(st, recv.args[1])]
        return self.generic_call(st, '.encode', recv, args, kwargs, node, fr)

    def m_decode(self, st, recv, args, kwargs, node, fr):
        if is_const(recv) and isinstance(recv.args[1], bytes) and not args and not kwargs:
            return [(st, const(recv.args[1].decode(errors='replace')))]
        if not kwargs and args and is_const(args[0]) and len(args) == 1 and str(args[0].args[1]).lower().replace('-', '') == 'utf8':
            args = []
        if not args and not kwargs and recv.op == 'call' and recv.args[0] == '.encode' and not recv.args[2] and not recv.args[3]:
            return [(st, recv.args[1])]
        if not args and not kwargs and recv.op == 'call' and recv.args[0] == '.encode':
            return [(st, mk('call', '.decode', recv, (), (), None))]
        return self.generic_call(st, '.decode', recv, args, kwargs, node, fr)

    def _strmethod(name):
        def f(self, st, recv, args, kwargs, node, fr):
            if is_const(recv) and isinstance(recv.args[1], (str, bytes)) and all(is_const(a) for a in args) and not kwargs:
                try:
                    v = getattr(recv.args[1], name)(*[a.args[1] for a in args])
                except Exception:
                    return None
                if isinstance(v, (str, bytes, bool, int)):
                    return [(st, const(v))]
                if isinstance(v, tuple):
                    return [(st, mk('tuple', *[const(x) for x in v]))]
                if isinstance(v, list):
                    return [(st, self.new_list(st, [const(x) for x in v], node, fr))]
            return None
        return f

    for _n in ('startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'isdigit', 'replace', 'split', 'rsplit', 'splitlines',
               'partition', 'rpartition', 'removeprefix', 'removesuffix', 'count', 'find'):
        locals()['m_' + _n] = _strmethod(_n)
    del _n

    def m_callback(self, st, recv, args, kwargs, node, fr):
        if recv.op == 'call' and recv.args[0] == 'contextlib.ExitStack':
            c = st.heap.get((recv, 'cbs', None))
            st.heap[(recv, 'cbs', None)] = mk('content', *((c.args if c else ()) + ((args[0], tuple(args[1:]), tuple(kwargs)),)))
            return [(st, args[0])]

    def m_acquire(self, st, recv, args, kwargs, node, fr):
        r = self.generic_call(st, '.acquire', recv, args, kwargs, node, fr, value=TRUE)
        st.locks = st.locks + (recv,)
        st.epoch += 1
        return r

    def m_release(self, st, recv, args, kwargs, node, fr):
        if recv in st.locks:
            l = list(st.locks)
            del l[len(l) - 1 - l[::-1].index(recv)]
            st.locks = tuple(l)
            st.epoch += 1
        return self.generic_call(st, '.release', recv, args, kwargs, node, fr, value=NONE)


def skeleton(v, depth=0):
    """What must agree between two values for their states to be merged."""
    if v is None or v.op == 'const' or v.op in BOOLEAN:
        return v
    if v.op == 'tuple' and depth < 3:
        return tuple(skeleton(x, depth + 1) for x in v.args)
    return '*'


class QuietPolicy(Policy):
    merge = True

    def record(self, ev):
        return False

    def raises(self, ev, st):
        return ()


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitXor: '^', ast.BitAnd: '&', ast.MatMult: '@'}
import operator as _op
PYOPS = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv, '//': _op.floordiv, '%': _op.mod,
         '**': lambda a, b: a ** b if isinstance(b, (int, float)) and abs(b) < 64 else None, '<<': _op.lshift, '>>': _op.rshift,
         '|': _op.or_, '^': _op.xor, '&': _op.and_, '@': None}


def ast_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def lit(v):
    if isinstance(v, tuple):
        return mk('tuple', *[lit(x) for x in v])
    if isinstance(v, list):
        return mk('list', *[lit(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return mk('set', *[lit(x) for x in sorted(v, key=repr)])
    if isinstance(v, dict):
        return mk('dict', *[(lit(k), lit(x)) for k, x in v.items()])
    return const(v)


def is_strish(t):
    return t.op == 'fstr' or (t.op == 'const' and isinstance(t.args[1], str)) or \
        (t.op == 'call' and t.args[0] in ('str', 'repr', '.decode'))


def fstr(parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == 'fstr' else (p,)):
            if q.op == 'const' and not isinstance(q.args[1], (bytes,)):
                q = const(str(q.args[1]))
                if q.args[1] == '':
                    continue
                if out and out[-1].op == 'const':
                    out[-1] = const(out[-1].args[1] + q.args[1])
                    continue
            if q.op == 'call' and q.args[0] == 'str' and len(q.args[2]) == 1:
                q = q.args[2][0]
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and out[0].op == 'const':
        return out[0]
    return mk('fstr', *out)


def norm_ext(n):
    if n.startswith('builtins.') and n != 'builtins.__import__':
        return n[9:]
    if n.startswith('np.'):
        return 'numpy.' + n[3:]
    return n
