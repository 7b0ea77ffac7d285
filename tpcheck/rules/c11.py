from .codec import *

EXPLANATION = """
For each serializer and each type it declares serializable, the hook the library calls for values it cannot write itself is
interpreted on a symbolic value of exactly that type; what it returns is carried over to the reader (json: tuples become
lists, inner tagged dicts are decoded first, no bytes), whose hook is interpreted on it under the path's facts.  The
composition must reduce to the original value by the inverse laws of the standard conversions (pickle, base64, isoformat,
tobytes/frombuffer with dtype and shape, dtype/scalar); every path of both hooks is compared.  Plain dicts must be returned
as they are, and the options given to the libraries must neither lose nor change native values.
"""
ASSUMPTIONS = ['the standard conversions are inverse to each other for values of exactly the type they are made for; arrays have no object fields']

B64 = {'base64.b64decode': ('base64.b64encode', 'base64.standard_b64encode', 'binascii.b2a_base64'),
       'base64.standard_b64decode': ('base64.b64encode', 'base64.standard_b64encode', 'binascii.b2a_base64'),
       'binascii.a2b_base64': ('base64.b64encode', 'base64.standard_b64encode', 'binascii.b2a_base64'),
       'base64.decodebytes': ('base64.b64encode', 'base64.standard_b64encode', 'base64.encodebytes'),
       'base64.urlsafe_b64decode': ('base64.urlsafe_b64encode',), 'base64.b32decode': ('base64.b32encode',),
       'base64.b16decode': ('base64.b16encode',), 'base64.b85decode': ('base64.b85encode',), 'base64.a85decode': ('base64.a85encode',),
       'bytes.fromhex': ('.hex', 'binascii.hexlify'), 'binascii.unhexlify': ('.hex', 'binascii.hexlify'),
       'zlib.decompress': ('zlib.compress',)}
CODECS = {None: 'utf8', 'utf-8': 'utf8', 'utf8': 'utf8', 'UTF-8': 'utf8', 'ascii': 'utf8', 'latin1': 'latin1', 'latin-1': 'latin1', 'us-ascii': 'utf8'}


def call(t, *names):
    return t.op == 'call' and t.args[0] in names


def charset(t):
    a = list(t.args[2]) + [v for k, v in t.args[3] if k == 'encoding']
    return CODECS.get(cval(a[0]) if a and is_const(a[0]) else None, '?') if (not a or is_const(a[0])) else '?'


def untext(t):
    """Without conversions between text and bytes."""
    while True:
        if call(t, '.decode', '.encode') and charset(t) != '?':
            t = t.args[1]
        elif call(t, 'bytes', 'bytearray', 'memoryview', 'str') and len(t.args[2]) >= 1 and (not call(t, 'str') or len(t.args[2]) > 1):
            t = t.args[2][0]
        else:
            return t


def first(t):
    return t.args[2][0] if t.args[2] else (t.args[3][0][1] if t.args[3] else None)


class Law:
    def __init__(self, value, kind, facts):
        self.v = value
        self.kind = kind
        self.facts = facts

    def norm(self, t):
        """Reduce a value by the inverse laws."""
        v = self.v
        if t is v:
            return t
        if t.op in ('tuple', 'list') and len(t.args) == 1 and t.args[0].op == 'star':
            x = self.norm(t.args[0].args[0])
            if x is v and self.kind in ('tuple', 'list'):
                return v if t.op == self.kind else mk('other-type', v)
            if x.op == 'other-type' and t.op == self.kind:
                return x.args[0]
        if call(t, 'pickle.loads'):
            x = self.strip_bytes(first(t))
            if call(x, 'pickle.dumps') and self.proto(x):
                return self.norm(first(x))
        if t.op == 'call' and t.args[0] in B64:
            x = self.strip_bytes(first(t))
            x = untext(x)
            if t.op == 'call' and x.op == 'call' and x.args[0] in B64[t.args[0]] and self.plain(t, x):
                y = x.args[1] if x.args[0] == '.hex' and x.args[1] is not None else first(x)
                return self.norm(y)
        if call(t, 'datetime.datetime.fromisoformat', 'datetime.date.fromisoformat'):
            x = untext(first(t))
            if t.args[0] == self.kind + '.fromisoformat' and call(x, '.isoformat', 'str') and self.precise(x):
                return self.norm(x.args[1] if x.args[1] is not None else first(x))
        if call(t, '.astype') or call(t, '.copy'):
            return self.norm(t.args[1]) if call(t, '.copy') else t
        if call(t, '.reshape', 'numpy.reshape'):
            r = self.array(t)
            if r is not None:
                return r
        if call(t, 'numpy.ndarray'):
            kw = dict(t.args[3])
            pos = list(t.args[2])
            shp = kw.get('shape', pos[0] if pos else None)
            dt = kw.get('dtype', pos[1] if len(pos) > 1 else None)
            buf = kw.get('buffer', pos[2] if len(pos) > 2 else None)
            if shp is not None and dt is not None and buf is not None and set(kw) <= {'shape', 'dtype', 'buffer'}:
                r = self.build(buf, dt, shp)
                if r is not None:
                    return r
        if t.op == 'call' and t.args[0] == '.type' and t.args[1] is not None:
            r = self.scalar(t.args[1], t.args[2][0] if t.args[2] else None)
            if r is not None:
                return r
        if t.op == 'call' and t.args[0] == '()' and t.args[2] and t.args[1] is not None and t.args[1].op == 'attr' and t.args[1].args[1] == 'type':
            r = self.scalar(t.args[1].args[0], t.args[2][0])
            if r is not None:
                return r
        if call(t, '.astype') and t.args[1] is not None:
            return t
        return t

    def strip_bytes(self, t):
        t2 = self.reduce_inner(t)
        while call(t2, 'bytes', 'bytearray', 'memoryview') and len(t2.args[2]) == 1:
            t2 = self.reduce_inner(t2.args[2][0])
        return t2

    def reduce_inner(self, t):
        """An inner conversion that undoes another (base64, text)."""
        if t.op == 'call' and t.args[0] in B64:
            x = untext(first(t))
            if x.op == 'call' and x.args[0] in B64[t.args[0]] and self.plain(t, x):
                return self.reduce_inner(x.args[1] if x.args[0] == '.hex' and x.args[1] is not None else first(x))
        if call(t, '.encode', '.decode') and t.args[1] is not None and call(t.args[1], '.decode', '.encode') and t.args[1].args[0] != t.args[0]:
            if charset(t) == charset(t.args[1]) and charset(t) in ('latin1',):
                return self.reduce_inner(t.args[1].args[1])
        return t

    def plain(self, dec, enc):
        """Neither side uses another alphabet."""
        return not ([k for k, _ in dec.args[3] if k in ('altchars',)] or [k for k, _ in enc.args[3] if k == 'altchars'] or
                    (enc.args[0].startswith('base64') and len(enc.args[2]) > 1) or (dec.args[0].startswith('base64') and len(dec.args[2]) > 1))

    def proto(self, x):
        return all(k in ('protocol', 'fix_imports') for k, _ in x.args[3])

    def precise(self, x):
        a = list(x.args[2]) if x.args[1] is not None else list(x.args[2])[1:]
        kw = dict(x.args[3])
        spec = kw.get('timespec', a[1] if len(a) > 1 else None)
        return spec is None or (is_const(spec) and cval(spec) in ('auto', 'microseconds'))

    # ---- arrays
    def source(self, a):
        """Is a the array itself (or its contiguous copy)?"""
        return a is self.v or (call(a, 'numpy.ascontiguousarray', 'numpy.asarray', 'numpy.array', '.copy') and
                               (a.args[1] if a.args[0] == '.copy' else first(a)) is not None and
                               self.source(a.args[1] if a.args[0] == '.copy' else first(a)) and not [k for k, _ in a.args[3] if k in ('dtype', 'ndmin')] and
                               (a.args[0] == '.copy' or len(a.args[2]) == 1))

    def shape_kept(self, a):
        """ascontiguousarray makes an array without dimensions one-dimensional."""
        if a is self.v:
            return True
        if not call(a, 'numpy.ascontiguousarray'):
            return self.shape_kept(a.args[1] if a.args[0] == '.copy' else first(a))
        src = first(a)
        for c, b in self.facts.items():
            if c.op == 'truth' and isinstance(b, bool) and mentions(c, src) and b is False and any(
                    (x.op == 'const' and str(x.args[1]).upper() in ('C_CONTIGUOUS', 'C', 'CONTIGUOUS', 'CARRAY')) or
                    (x.op == 'attr' and x.args[1] in ('c_contiguous', 'contiguous', 'carray')) for x in subterms(c)):
                return True
            if any(x.op == 'attr' and x.args[1] in ('ndim', 'shape') and x.args[0] is src for x in subterms(c)):
                return True
        return False

    def array(self, t):
        src = t.args[1] if t.args[1] is not None else first(t)
        shp = list(t.args[2]) if t.args[1] is not None else list(t.args[2])[1:]
        kw = dict(t.args[3])
        if kw.get('order') is not None and not (is_const(kw['order']) and cval(kw['order']) in ('C', 'A')):
            return None
        if 'shape' in kw:
            shp = [kw['shape']]
        if len(shp) != 1:
            return None
        s = shp[0]
        while call(src, '.copy') and src.args[1] is not None:
            src = src.args[1]
        if not call(src, 'numpy.frombuffer'):
            return None
        kw2 = dict(src.args[3])
        if set(kw2) - {'dtype', 'buffer'} or len(src.args[2]) > 2:
            return None
        buf = kw2.get('buffer', src.args[2][0] if src.args[2] else None)
        dt = kw2.get('dtype', src.args[2][1] if len(src.args[2]) > 1 else None)
        if buf is None or dt is None:
            return None
        return self.build(buf, dt, s)

    def build(self, buf, dt, shp):
        b = self.strip_bytes(buf)
        if call(b, '.tobytes', '.tostring') and b.args[1] is not None:
            o = list(b.args[2]) + [v for k, v in b.args[3]]
            if o and not (is_const(o[0]) and cval(o[0]) in ('C', None)):
                return None
            a = b.args[1]
        else:
            return None
        if not self.source(a):
            return None
        if not self.is_dtype(dt) or not self.is_shape(shp):
            return None
        return self.v

    def is_shape(self, s):
        while s.op in ('tuple', 'list') and len(s.args) == 1 and s.args[0].op == 'star':
            s = s.args[0].args[0]
        while s.op in ('star',) or call(s, 'tuple', 'list'):
            s = s.args[0] if s.op == 'star' else first(s)
        return s.op == 'attr' and s.args[1] == 'shape' and self.source(s.args[0]) and self.shape_kept(s.args[0])

    def dtype_attr(self, d):
        return d.op == 'attr' and d.args[1] == 'dtype' and self.source(d.args[0])

    def dtype_text(self, d):
        if d.op == 'fstr' and len(d.args) == 1:
            d = mk('call', 'str', None, (d.args[0],), (), None)
        d = untext(d)
        return d.op == 'call' and d.args[0] == 'str' and len(d.args[2]) == 1 and self.dtype_attr(d.args[2][0]) and d

    def is_dtype(self, d):
        while call(d, 'numpy.dtype') and len(d.args[2]) == 1 and not d.args[3]:
            d = d.args[2][0]
        if self.dtype_attr(d):
            return True
        if d.op == 'attr' and d.args[1] == 'descr' and self.dtype_attr(d.args[0]):
            return True
        x = self.dtype_text(d)
        if x:
            # the text of a structured type is not a type name: it has to be evaluated
            return self.excludes(x, '[') and self.excludes(x, '{')
        if any(y.op == 'executed' for y in subterms(d)) or call(d, 'eval', 'ast.literal_eval'):
            return any(y.op == 'attr' and self.dtype_attr(y) for y in subterms(d))
        return False

    def excludes(self, x, ch):
        for c, b in self.facts.items():
            if b is False and c.op in ('truth', 'in', 'eq') and mentions(c, x):
                for y in subterms(c):
                    if is_const(y) and isinstance(cval(y), str) and ch in cval(y) and (cval(y)[0] == ch or c.op == 'in'):
                        return True
        return False

    # ---- scalars
    def scalar(self, dt, val):
        if val is None:
            return None
        while call(dt, 'numpy.dtype') and len(dt.args[2]) == 1:
            dt = dt.args[2][0]
        if dt.op == 'attr' and dt.args[1] in ('name', 'str') and self.dtype_attr(dt.args[0]):
            pass
        elif not (self.dtype_attr(dt) or self.dtype_text(dt)):
            return None
        want = {'numpy.integer': 'int', 'numpy.floating': 'float', 'numpy.bool_': 'bool'}.get(self.kind)
        if want is None:
            return None
        if call(val, want) and len(val.args[2]) == 1 and val.args[2][0] is self.v:
            return self.v
        if call(val, '.item', '.tolist') and val.args[1] is self.v and not val.args[2]:
            return self.v
        if call(val, '.__int__', '.__float__', '.__bool__') and val.args[1] is self.v and val.args[0][3:].startswith(want):
            return self.v
        if want == 'int' and call(val, 'operator.index') and first(val) is self.v:
            return self.v
        if want == 'bool' and is_const(val) and isinstance(cval(val), (bool, int)):
            for c, b in self.facts.items():
                if c.op == 'truth' and c.args[0] is self.v and isinstance(b, bool):
                    return self.v if b == bool(cval(val)) else None
        if want == 'bool' and call(val, 'int') and first(val) is self.v:
            return self.v
        return None


NATIVE = {'json': ('tuple', 'NoneType'), 'msgpack': ('bytes', 'NoneType')}
BAD_DUMP = {'msgpack': {'use_bin_type': False, 'strict_types': None, 'use_single_float': True, 'datetime': True, 'unicode_errors': None},
            'json': {'skipkeys': True, 'allow_nan': False, 'check_circular': False}}
BAD_LOAD = {'msgpack': {'raw': True, 'strict_map_key': None, 'use_list': None, 'timestamp': None, 'unicode_errors': None},
            'json': {'parse_float': None, 'parse_int': None, 'parse_constant': None, 'object_pairs_hook': None}}


def check(ctx):
    ser = serializers(ctx)
    if len(ser) < 2:
        raise AnalysisBroken('serializers not found')
    ctx.samples.append('serializers: ' + ', '.join(c.ci.name for c in ser))
    for c in ser:
        options(ctx, c)
        plain(ctx, c)
        if c.enc is None or c.dec is None:
            ctx.fail('C11.hooks', c.ci.name, c.ci.key, 'the %s of %s is not given to the library' % ('writing hook' if c.enc is None else 'reading hook', c.ci.name))
            continue
        for k, t in kinds(ctx).items():
            if k == 'NoneType' or k in NATIVE.get(c.lib, ()) and k != 'bytes':
                continue
            v = mk('sym', 'value', t)
            n = 0
            for ip, p, w in c.encode(v, c.state(True, v, k)):
                if w is None:
                    if impossible(p.facts, v):
                        continue
                    ctx.fail('C11.encode', '%s: %s' % (c.ci.name, k), c.enc[0].key, 'a %s may be refused: %s' % (k, short(p.val)))
                    continue
                n += 1
                for got, facts, why in c.wire(w, p.facts):
                    law = Law(v, k, facts)
                    ok = not why and got is not None and law.norm(got) is v
                    ctx.check(ok, 'C11.inverse', '%s: %s' % (c.ci.name, k), c.dec[0].key,
                              'a %s written as %s is read as %s%s' % (k, short(w, 200), short(got, 200) if got is not None else 'nothing', ' (%s)' % why if why else ''))
            if not n and k not in NATIVE.get(c.lib, ()):
                ctx.fail('C11.encode', '%s: %s' % (c.ci.name, k), c.enc[0].key, 'a %s cannot be written' % k)
    registry(ctx, ser)
    ctx.require('C11.inverse', 20)
    ctx.require('C11.options', 4)
    ctx.require('C11.plain', 2)


def impossible(facts, v):
    """A path that needs a contiguous copy that is not contiguous."""
    for c, b in facts.items():
        if c.op == 'truth' and b is False and any(call(x, 'numpy.ascontiguousarray') for x in subterms(c)) and any(
                (x.op == 'const' and 'CONTIGUOUS' in str(x.args[1])) or (x.op == 'attr' and 'contiguous' in str(x.args[1])) for x in subterms(c)):
            return True
    return False


def options(ctx, c):
    for what, kw, call_, bad in (('written', c.dump_kw, c.dump_call, BAD_DUMP), ('read', c.load_kw, c.load_call, BAD_LOAD)):
        for k, wrong in bad.get(c.lib, {}).items():
            v = kw.get(k)
            if (c.lib, k) == ('msgpack', 'strict_types'):
                ok, msg = v is TRUE, 'without strict_types tuples are sent as lists and subclasses of native types lose their type'
            elif (c.lib, k) == ('msgpack', 'strict_map_key'):
                ok, msg = v is FALSE, 'without strict_map_key=False dicts with other keys than text cannot be read back'
            elif (c.lib, k) == ('msgpack', 'use_list'):
                ok, msg = v is None or v is TRUE, 'with use_list=%s lists are read as tuples' % (short(v) if v is not None else '')
            elif wrong is None:
                ok, msg = v is None or v is NONE, 'the option %s changes native values' % k
            else:
                ok, msg = v is None or v is NONE or (is_const(v) and cval(v) is (not wrong)), 'the option %s=%s loses native values' % (k, wrong)
            ctx.check(ok, 'C11.options', '%s: %s' % (c.ci.name, k), call_.where, msg)
        for k, v in kw.items():
            if c.lib == 'msgpack' and k.startswith('max_') and not (is_const(v) and cval(v) in (0, -1, None)):
                least = {'max_buffer_size': 1 << 31}.get(k, (1 << 32) - 1)
                ctx.check(is_const(v) and isinstance(cval(v), int) and cval(v) >= least or (v.op == 'call' and v.args[0] == 'len'), 'C11.options', '%s: %s' % (c.ci.name, k), call_.where,
                          'with %s=%s values that were written are not read back' % (k, short(v)))
    # text encodings of the library's result
    for what, paths, other in (('dumps', c.dump_paths, '.encode'), ('loads', c.load_paths, '.decode')):
        for ip, p, evs in paths:
            if p.kind != 'return' or not evs:
                continue
            if what == 'dumps':
                v = p.val
                cs = None
                while call(v, '.encode', '.decode', 'bytes'):
                    if v.args[0] in ('.encode', '.decode'):
                        cs = charset(v)
                    v = v.args[1] if v.args[0] != 'bytes' else first(v)
                ctx.check(v is evs[-1].value, 'C11.options', '%s: result of dumps' % c.ci.name, evs[-1].where, 'dumps returns %s' % short(p.val))
                c.charset = cs
            else:
                a = evs[-1].args[0] if evs[-1].args else None
                cs = None
                x = a
                while x is not None and call(x, '.encode', '.decode', 'bytes', 'str'):
                    if x.args[0] in ('.encode', '.decode'):
                        cs = charset(x)
                        x = x.args[1]
                    elif x.args[0] == 'str' and len(x.args[2]) > 1:
                        cs = CODECS.get(cval(x.args[2][1]), '?')
                        x = x.args[2][0]
                    else:
                        x = first(x)
                ctx.check(x is not None and x.op == 'sym', 'C11.options', '%s: argument of the library' % c.ci.name, evs[-1].where, 'what is read is %s' % short(a))
                ctx.check(getattr(c, 'charset', None) == cs or cs is None and c.lib == 'json', 'C11.options', '%s: text encoding' % c.ci.name, evs[-1].where,
                          'text is written as %s and read as %s' % (getattr(c, 'charset', None), cs))
                ctx.check(p.val is evs[-1].value, 'C11.options', '%s: result of loads' % c.ci.name, evs[-1].where, 'loads returns %s' % short(p.val))


def plain(ctx, c):
    """A dict that is not one of the serializer's own is read as it is."""
    if c.dec is None:
        return
    tag = tag_of(ctx)
    d = mk('sym', 'plain dict', 'ext:dict')
    st = State()
    st.facts[mk('in', const(tag), d)] = False
    ip, ps = c.run(c.dec, d, st)
    n = 0
    for p in ps:
        if absent(p.facts):
            continue
        n += 1
        v = p.val
        while v is not None and v.op in ('at', 'upd') and (v.op == 'at' or all(x is DELETED and k is const(tag) for k, x in v.args[1])):
            v = v.args[0]
        if v is not d and not unrelated(p.facts, d, tag):
            ctx.fail('C11.plain', c.ci.name, c.dec[0].key, 'a plain dict is read as %s' % (short(p.val) if p.kind == 'return' else 'error %s' % short(p.val)))
        else:
            ctx.check(True, 'C11.plain', c.ci.name, c.dec[0].key, '')
    if not n:
        raise AnalysisBroken('no path reads a plain dict')


def unrelated(facts, d, tag):
    """Paths on which the dict has the tag after all."""
    for c, b in facts.items():
        if b is True and c.op == 'eq' and any(x.op in ('item', 'get', 'call') and mentions(x, const(tag)) for x in c.args) and any(
                is_const(x) and isinstance(cval(x), str) for x in c.args):
            return True
        if c.op == 'isnone' and b is False and mentions(c, const(tag)) and mentions(c, d):
            return True
    return False


def tag_of(ctx):
    """The key that marks the serializers' own dicts: the first key every encoded dict has in common."""
    c = serializers(ctx)[0]
    keys = None
    for k, t in kinds(ctx).items():
        if k in ('NoneType',):
            continue
        v = mk('sym', 'value', t)
        for ip, p, w in c.encode(v, c.state(True, v, k)):
            if w is not None and w.op == 'dict':
                ks = {cval(x) for x, _ in w.args if is_const(x)}
                keys = ks if keys is None else keys & ks
    if not keys:
        raise AnalysisBroken('encoded values have no common key')
    return sorted(keys)[0]


def registry(ctx, ser):
    """Each serializer is registered under the name clients and servers know it by."""
    for c in ser:
        types = {}
        m = c.ci.module
        val = None
        for s in c.ci.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'type' for t in s.targets) and isinstance(s.value, ast.Constant):
                val = s.value.value
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == c.ci.name:
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        ks = t.slice
                        if isinstance(ks, ast.Constant):
                            ctx.check(val is None or ks.value == val, 'C11.registry', c.ci.name, '%s:%d' % (m.name, n.lineno), '%s is registered as %r, not %r' % (c.ci.name, ks.value, val))
                        elif isinstance(ks, ast.Attribute) and isinstance(ks.value, ast.Name):
                            ctx.check(ks.value.id == c.ci.name, 'C11.registry', c.ci.name, '%s:%d' % (m.name, n.lineno), '%s is registered under the name of %s' % (c.ci.name, ks.value.id))
