"""The serializers: what their hooks write for each kind of value and what they read back (C10, C11, C12)."""
import ast
import copy
from .prox import *

NUMPY = ('numpy.ndarray', 'numpy.integer', 'numpy.floating', 'numpy.bool_', 'numpy.complexfloating', 'numpy.longdouble',
         'numpy.timedelta64', 'numpy.dtype')


def kinds(ctx):
    r = {k: 'ext:' + k for k in ('tuple', 'bytes', 'NoneType', 'datetime.datetime', 'datetime.date',
                                 'multiprocessing.shared_memory.SharedMemory') + NUMPY}
    r['SharedNDArray'] = ctx.p.find_class('SharedNDArray')
    return r


LIBCALLS = {'msgpack.dumps', 'msgpack.packb', 'json.dumps', 'msgpack.loads', 'msgpack.unpackb', 'json.loads', 'msgpack.Packer', 'msgpack.Unpacker',
            'json.JSONEncoder', 'json.JSONDecoder'}


class Codec:
    def __init__(self, ctx, ci):
        self.ctx = ctx
        self.ci = ci
        self.lib = None
        self.so = mk('obj', ci.key, 'sym')
        self.extract()

    def policy(self, **kw):
        kw.setdefault('merge', False)
        return RP(raising=False, opaque=lambda f: f.module.name not in (self.ci.module.name, 'teleprox.proxy'), **kw)

    def method(self, name):
        fi = self.ctx.p.find_method(self.ci.key, name)
        if fi is None:
            raise AnalysisBroken('anchor vanished: %s.%s' % (self.ci.key, name))
        return fi

    # ---- the library calls and their hooks
    def extract(self):
        names = LIBCALLS
        self.dump_paths, self.load_paths = [], []
        for m, out in (('dumps', self.dump_paths), ('loads', self.load_paths)):
            fi = self.method(m)
            ip = self.ctx.interp(self.policy(names=names, kinds={'write'}))
            for p in ip.run(fi, self_val=self.so):
                evs = [e for e in flat(p.trace) if e.kind == 'call' and e.name in names]
                out.append((ip, p, evs))
        one = [e for _, _, evs in self.dump_paths for e in evs]
        if not one:
            raise AnalysisBroken('%s: the library call that writes is not found' % self.ci.name)
        self.dump_call = one[0]
        self.lib = self.dump_call.name.split('.')[0]
        one = [e for _, _, evs in self.load_paths for e in evs]
        if not one:
            raise AnalysisBroken('%s: the library call that reads is not found' % self.ci.name)
        self.load_call = one[0]
        self.dump_kw = dict(self.dump_call.kwargs)
        self.load_kw = dict(self.load_call.kwargs)
        self.enc = self.hook_fn(self.dump_kw.get('default'), self.dump_kw.get('cls'))
        self.dec = self.hook_fn(self.load_kw.get('object_hook'), None)

    def hook_fn(self, v, clsv):
        """(FuncInfo, name of the value parameter, self value) of a hook."""
        if v is not None and v.op == 'bound' and v.args[0].op == 'func':
            fi = self.ctx.p.func(v.args[0].args[0])
            return fi, fi.node.args.args[1].arg
        if v is not None and v.op == 'func':
            fi = self.ctx.p.func(v.args[0])
            return fi, fi.node.args.args[0].arg
        if clsv is not None:
            return self.encoder_class(clsv)
        return None

    def encoder_class(self, clsv):
        """default() of the JSONEncoder subclass defined in the serializer's module."""
        cands = []
        for fn in ast.walk(self.ci.module.tree):
            if isinstance(fn, (ast.FunctionDef, ast.Module, ast.ClassDef)):
                for s in ast.walk(fn) if isinstance(fn, ast.FunctionDef) else fn.body:
                    if isinstance(s, ast.ClassDef) and any(ast.unparse(b).split('.')[-1] == 'JSONEncoder' for b in s.bases):
                        cands.append((fn, s))
        fns = [c for c in cands if isinstance(c[0], ast.FunctionDef)] or cands
        for outer, c in fns:
            for d in c.body:
                if isinstance(d, ast.FunctionDef) and d.name == 'default':
                    key = '%s:%s.default' % (self.ci.module.name, c.name)
                    fi = self.ctx.p.funcs.get(key)
                    if fi is None:
                        n = copy.deepcopy(d)
                        if isinstance(outer, ast.FunctionDef) and outer.args.args:
                            n.args.args.insert(0, ast.arg(arg=outer.args.args[0].arg))
                        ast.fix_missing_locations(n)
                        fi = self.ctx.p._add_func(self.ci.module, n, self.ci, c.name + '.default')
                    return fi, fi.node.args.args[-1].arg
        return None

    # ---- running the hooks
    def run(self, which, value, st=None, so=None, **kw):
        fi, par = which
        ip = self.ctx.interp(self.policy(**kw))
        return ip, ip.run(fi, self_val=so or self.so, args={par: value}, st=st)

    # ---- what a call of dumps / loads leaves behind for the hooks
    def after(self, name, **args):
        """[(path, state)] after dumps or loads was called with these values for its parameters."""
        fi = self.method(name)
        ps = [x.arg for x in fi.node.args.args][1:]
        vals = {x: sym('%s %s' % (name, x)) for x in ps}
        for k, v in args.items():
            if k not in vals:
                raise AnalysisBroken('%s.%s has no parameter %s' % (self.ci.name, name, k))
            vals[k] = v
        ip = self.ctx.interp(self.policy(names=LIBCALLS))
        return [(p, p.st) for p in ip.run(fi, self_val=self.so, args=vals) if p.kind == 'return']

    def prepared(self):
        """A state in which dumps has been called with the allowed types T, without server."""
        if getattr(self, '_prepared', None) is None:
            T = sym('allowed types')
            ok = [st for p, st in self.after('dumps', server=NONE, serialize_types=T) if st.facts.get(mk('truth', T)) is not False]
            if not ok:
                raise AnalysisBroken('%s.dumps never returns' % self.ci.name)
            self._prepared = ok[0]
        return self._prepared.fork()

    def state(self, allowed, value, kind=None, st=None):
        st = st or self.prepared()
        for k, x in list(st.heap.items()):
            if k[0] is self.so and k[1] == 'a' and x is not NONE:
                st.facts[mk('isinst', value, x)] = allowed
        if value.op == 'sym':
            st.facts[mk('isnone', value)] = False
        for k, n in EXACT.items():
            if kind == k:
                st.facts[mk('isinst', value, ext(n))] = False
        return st

    def encode(self, value, st, **kw):
        """[(interpreter, path, wire term or None)] of the hook the library calls for a value it does not know."""
        ip, ps = self.run(self.enc, value, st, **kw)
        r = []
        for p in ps:
            if not absent(p.facts):
                r.append((ip, p, ip.freeze(p.st, p.val) if p.kind == 'return' else None))
        return r

    def wire(self, t, facts, top=True, st=None):
        """[(decoded term or None, facts, why)] of what the reader makes of a written term."""
        if t.op == 'tuple' and self.lib == 'json':
            t = mk('list', *t.args)
        if t.op == 'tuple' and self.lib == 'msgpack' and not top:
            return [(t, facts, '')]
        if t.op != 'dict':
            return [(t, facts, self.leaf(t, facts))]
        outs = [([], facts, '')]
        for k, v in t.args:
            nxt = []
            for pairs, f, why in outs:
                for v2, f2, w2 in self.wire(v, f, False):
                    nxt.append((pairs + [(k, v2)], f2, why or w2))
            outs = nxt
        res = []
        for pairs, f, why in outs:
            res.extend((ip.freeze(p.st, p.val) if p.kind == 'return' else None, p.facts, why or ('' if p.kind == 'return' else 'raises ' + short(p.val)))
                       for ip, p in self.decode(pairs, f))
        return res

    def decode(self, pairs, facts, st=None, **kw):
        """[(interpreter, path)] of the reader's hook on a dict."""
        a = mk('alloc', 'dict', 'wire %s' % self.ci.name, len(pairs))
        st = st.fork() if st is not None else State()
        st.facts.update(facts)
        st.heap[(a, 'map', None)] = mk('content', *pairs)
        if self.dec is None:
            return []
        ip, ps = self.run(self.dec, a, st, **kw)
        return [(ip, p) for p in ps if not absent(p.facts)]

    def leaf(self, t, facts):
        """Why a part of what is written cannot be written by the library ('' if it can)."""
        if is_const(t):
            return 'the bytes %r are written as such' % (cval(t),) if isinstance(cval(t), bytes) and self.lib == 'json' else ''
        if self.lib == 'json' and binary(t):
            return 'bytes are given to json (%s)' % short(t, 80)
        if t.op == 'sym' and len(t.args) > 1 and str(t.args[1]).startswith('ext:'):
            return 'the value itself is part of what is written for it'
        return ''


EXACT = {'datetime.date': 'datetime.datetime', 'numpy.floating': 'numpy.longdouble', 'numpy.integer': 'numpy.timedelta64'}


def absent(facts):
    """Paths of an installation without numpy or msgpack."""
    return any(c.op in ('truth', 'attr', 'isnone') and b is False and any(
        x.op in ('attr', 'global', 'glob', 'modattr', 'sym') and str(x.args[-1]).startswith('HAVE_') or
        (hasattr(x, 'args') and any(isinstance(y, str) and y.split('.')[-1].startswith('HAVE_') for y in x.args)) for x in subterms(c))
        and c.op == 'truth' for c, b in facts.items())


def binary(t):
    n = t.args[0] if t.op == 'call' else ''
    return n in ('pickle.dumps', '.tobytes', 'base64.b64encode', '.encode', 'bytes', 'base64.standard_b64encode', 'binascii.b2a_base64',
                 'base64.b85encode', 'bytearray', 'memoryview', 'base64.urlsafe_b64encode', 'base64.b32encode', 'base64.b16encode')


def serializers(ctx):
    base = ctx.p.find_class('Serializer')
    return [Codec(ctx, ctx.p.classes[k]) for k in ctx.p.subclasses(base) if k != base]
