"""C12: the textual form agrees with the official tool and encodes back to the message."""
import math
import os
import re
import struct

from mc import wire, refschema
from mc.wire import St, Pl, Pp, Co, Plan
from mc.explore import Skip, Violation
from mc.shapes import INTS
from mc.view import View, pyname
from mc.checks.c01 import big_shapes
from mc.checks.c02 import leaves, field_values, put, conflict

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 2, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': 'texts: every single byte of ASCII, every string of length <= 3 over 14 characters (quotes, backslash, control characters, DEL, '
             'multi-byte); data: every pair of bytes; every power of two and its neighbours for each integer type; every exponent of Float32 and '
             'Float64 x 4 mantissas; every enumerant and unknown values; every field value of every struct of the zoo/unions/enums/defaults '
             'schemas, every pair of pointer fields x 2 values, every union member incl. null and unknown tags; null and nested list items; '
             'short and oversized structs; every assignment of up to 4 allocations to 2 segments',
    'thorough': 'as quick, with strings of length <= 4 and pairs of all fields x 3 values'}
ASSUMPTIONS = ['the oracle is the installed `capnp convert` 1.0.1 (binary:text --short, text:binary)',
               'floats are compared as numbers (capnpy documents the standard Python repr unless capnpy.floatrepr is built) and Data '
               'modulo the choice of escapes (\\xNN instead of octal); both must encode back to the same bytes',
               'non-null AnyPointer and text which is not UTF-8 have no textual form (the official tool cannot encode them either)']

TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|-?(?:inf|nan|[0-9][0-9.]*(?:e[-+]?[0-9]+)?)(?![A-Za-z_])|[A-Za-z_][A-Za-z0-9_]*|\s+|.', re.S)
ESC = re.compile(r'\\(x[0-9a-fA-F]{2}|[0-7]{1,3}|.)', re.S)
SIMPLE = {'a': 7, 'b': 8, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13}


def unescape(tok):
    """C string token -> bytes"""
    out, pos = b'', 0
    s = tok[1:-1]
    for m in ESC.finditer(s):
        out += s[pos:m.start()].encode('utf-8')
        e = m.group(1)
        if e[0] == 'x':
            out += bytes([int(e[1:], 16)])
        elif e[0].isdigit():
            out += bytes([int(e, 8) & 255])
        else:
            out += bytes([SIMPLE.get(e, ord(e))])
        pos = m.end()
    return out + s[pos:].encode('utf-8')


def isfloat(t):
    return ('inf' in t or 'nan' in t or '.' in t or 'e' in t) and t[0] in '-0123456789in'


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def same_token(a, b, data):
    if a == b:
        return True
    if a[:1] == '"' and b[:1] == '"':
        return data and unescape(a) == unescape(b)
    if (isfloat(a) or isfloat(b)) and a[0] in '-0123456789in' and b[0] in '-0123456789in':
        try:
            x, y = float(a), float(b)
        except ValueError:
            return False
        if x != x or y != y:
            return x != x and y != y
        # the tool prints Float32 with 8 digits, not always enough; exactness is decided by encoding back
        return math.copysign(1, x) == math.copysign(1, y) and (x == y or abs(x - y) <= max(abs(x) * 2e-7, 1e-45) or f32(x) == f32(y))
    return False


def same_text(got, want, data):
    if got == want:
        return True
    a, b = TOKEN.findall(got), TOKEN.findall(want)
    return len(a) == len(b) and all(same_token(x, y, data) for x, y in zip(a, b))


def has_data(S, n, seen=None):
    """does the type contain Data anywhere?"""
    seen = set() if seen is None else seen
    if n.id in seen:
        return False
    seen.add(n.id)
    for f in n.fields:
        t = f.type
        while t.kind == 'list':
            t = t.elem
        if t.kind == 'data':
            return True
        if t.kind in ('struct', 'group') and has_data(S, S.nodes[t.id], seen):
            return True
    return False


class Texts(object):
    """collects (message, textual form) and compares them in batches with the official tool"""

    def __init__(self, ctx):
        self.ctx, self.pend = ctx, {}
        self.data = {}

    def add(self, c, schema, n, buf, text, back):
        self.pend.setdefault((schema, n.id), (n, []))[1].append(
            (text, buf, back, (self.ctx.ex.current, [t for t, _ in c.taken], list(c.labels))))
        if len(self.pend[schema, n.id][1]) >= 1000:
            self.flush()

    def bad(self, item, msg):
        scenario, choices, labels = item[3]
        self.ctx._on_violation(scenario, choices, labels, Violation(msg))

    def convert(self, fmt, parts, schema, name, short=True):
        return refschema.capnp_convert(fmt, parts, self.ctx.schema_file(schema), name, [self.ctx.ws, os.path.dirname(self.ctx.schema_file(schema))], short=short)

    def flush(self):
        for (schema, _), (n, items) in sorted(self.pend.items()):
            S = self.ctx.schema(schema)
            name = S.fullname(n)
            data = has_data(S, n)
            rc, out, err = self.convert('binary:text', [it[1] for it in items], schema, name)
            lines = out.decode('utf-8').split('\n')[:-1]
            assert rc == 0 and len(lines) == len(items), (name, rc, len(lines), len(items), err[-400:])
            good = []
            for it, want in zip(items, lines):
                if not same_text(it[0], want, data):
                    self.bad(it, '%s: the textual form is %s, the official tool prints %s' % (name, it[0][:600], want[:600]))
                elif it[2]:
                    good.append((it, want))
            self.ctx.count('texts_compared_with_capnp_tool', len(items))
            self.back(schema, name, good)
        self.pend = {}

    def back(self, schema, name, good):
        if not good:
            return
        rc, out, err = self.convert('text:binary', [(it[0] + '\n').encode('utf-8') for it, _ in good], schema, name, False)
        if rc != 0:
            if len(good) == 1:
                self.bad(good[0][0], '%s: the official tool does not accept %s: %s' % (name, good[0][0][0][:600], err[-300:]))
                return
            self.back(schema, name, good[:len(good) // 2])
            self.back(schema, name, good[len(good) // 2:])
            return
        pos = 0
        loose = []
        for it, want in good:
            start = pos
            segs, pos = wire.unframe(out, pos)
            got = wire.canon(wire.decode(segs))
            if it[2] == 'loose':
                loose.append((it, want, out[start:pos]))
            elif got != wire.canon(wire.decode_message(it[1])):
                self.bad(it, '%s: %s encodes to a different message: %r instead of %r' % (
                    name, it[0][:600], got, wire.canon(wire.decode_message(it[1]))))
        self.ctx.count('texts_encoded_back', len(good))
        if loose:
            rc, out, err = self.convert('binary:text', [b for _, _, b in loose], schema, name)
            for (it, want, _), again in zip(loose, out.decode('utf-8').split('\n')):
                if again != want:
                    self.bad(it, '%s: %s encodes to %s' % (name, want[:600], again[:600]))


def strip(st):
    while st.ptrs and st.ptrs[-1] is None:
        st = St(st.data, st.ptrs[:-1])
    return st


def run(ctx):
    import capnpy
    th = ctx.thorough
    texts = Texts(ctx)
    views = {}

    def view(schema):
        if schema not in views:
            mod = ctx.load(schema) if schema != 'enums' else ctx.compiler().load_schema(importname='/enums.capnp', pyx=ctx.pyx)
            views[schema] = View(ctx.schema(schema), mod)
        return views[schema]

    def look(c, schema, n, tree, back=True, segs=None):
        """back: True = encodes back to the same message; 'loose' = to a message which prints the same
        (null items become empty ones); False = not encodable (unknown enumerants and tags)"""
        buf = wire.frame(segs if segs is not None else wire.encode(tree))
        obj = capnpy.loads(buf, view(schema).cls(n))
        text = obj.shortrepr()
        c.check(isinstance(text, str), 'shortrepr returns %r' % type(text))
        name = type(obj).__name__
        c.eq(repr(obj), '<%s: %s>' % (name, text), 'repr')
        c.eq(str(obj), repr(obj), 'str')
        c.state(schema, n.id, buf)
        texts.add(c, schema, n, buf, text, back)
        return obj

    def explore(name, fn, **kw):
        ctx.explore(name, fn, **kw)
        texts.flush()

    # ---------------------------------------------------------------- texts
    S = ctx.schema('txt')
    B = S.byname
    alpha = [b'a', b'"', b"'", b'\\', b'\n', b'\t', b'\r', b'\0', b'\x1b', b'\x7f', b'0', b'x', b'\xc3\xa9', b'\xf0\x9f\x98\x80', b'(', b' ']
    if not th:
        alpha = alpha[:14]

    def chars(c):
        ch = bytes([c.choose(128)])
        how = c.choose(3)
        s = (ch, ch + b'1', b'z' + ch)[how]
        look(c, 'txt', B['Txt'], S.to_wire('Txt', {'t': s, 'u': s + b'u', 'n': -1}))
    explore('text/bytes', chars, shard_depth=1)

    def latin(c):
        ch = chr(0x80 + c.choose(0x80))
        if c.flag():
            ch = c.pick([u'\u0100', u'\u07ff', u'\u0800', u'\u2028', u'\ufeff', u'\ufffd', u'\uffff', u'\U00010000', u'\U0010ffff', u'\ud7ff', u'\ue000'])
        s = ch.encode('utf-8')
        look(c, 'txt', B['Txt'], S.to_wire('Txt', {'t': s, 'u': b'u' + s, 'n': 0}))
    explore('text/unicode', latin, shard_depth=1)

    def strings(c):
        n = c.choose(5 if th else 4)
        s = b''.join(c.pick(alpha) for _ in range(n))
        look(c, 'txt', B['Txt'], S.to_wire('Txt', {'t': s, 'u': s[::-1] if max(s + b'\0') < 128 else s, 'n': n}))
    explore('text/strings', strings, shard_depth=2)

    def tlists(c):
        items = alpha + [b'', None, b'plain']
        v = [c.pick(items) for _ in range(c.choose(3))]
        f = c.pick(['t', 'u', 'll'])
        look(c, 'txt', B['LTxt'], S.to_wire('LTxt', {f: [v, [], v[:1]] if f == 'll' else v}), 'loose' if None in v else True)
    explore('text/lists', tlists, shard_depth=1)

    def tunion(c):
        v = c.pick(alpha + [b'', None, b'plain'])
        m = c.pick(['t', 'u', 'x'])
        look(c, 'txt', B['UTxt'], S.to_wire('UTxt', {'g': {'x': v}} if m == 'x' else {m: v}), 'loose' if v is None else True)
    explore('text/unions', tunion)

    # ---------------------------------------------------------------- data
    def data(c):
        a = bytes([c.choose(256)])
        if c.flag():
            v = [a + bytes([b]) for b in range(256)]
            look(c, 'txt', B['Dat'], S.to_wire('Dat', {'l': v}))
        else:
            how = c.choose(4)
            s = (a, a + b'1', b'z' + a, b'"' + a + b"'")[how]
            look(c, 'txt', B['Dat'], S.to_wire('Dat', {'d': s, 'l': [None, s]}), 'loose')
    explore('data', data, shard_depth=1)

    dalpha = [b'a', b'"', b"'", b'\\', b'\n', b'\0', b'\xff', b'x', b'7']

    def dstrings(c):
        s = b''.join(c.pick(dalpha) for _ in range(c.choose(5 if th else 4)))
        look(c, 'txt', B['Dat'], S.to_wire('Dat', {'d': s, 'l': [s]}))
    explore('data/strings', dstrings, shard_depth=2)

    # ---------------------------------------------------------------- numbers
    def ints(c):
        bits = c.pick([8, 16, 32, 64])
        signed = c.flag()
        p = c.choose(bits)
        vals = sorted({v for k in (-1, 0, 1) for v in (2 ** p + k, -(2 ** p) + k)
                       if (-2 ** (bits - 1) <= v < 2 ** (bits - 1) if signed else 0 <= v < 2 ** bits)})
        f = ('i' if signed else 'u') + str(bits)
        v = c.pick(vals)
        look(c, 'txt', B['Int'], S.to_wire('Int', {f: v, 'l' + f: [v] + vals, 'b': c.flag(), 'lb': [True, False, v > 0]}))
    explore('ints', ints, shard_depth=3)

    def floats(c):
        if c.flag():
            e = c.choose(280) - 150
            m = c.pick([1.0, 1.5, 1.1, 1.9999998])
            v = f32(m * 2.0 ** e)
            v = -v if c.flag() else v
            value = {'a': v, 'la': [v, 1.0, -0.0, v]}
        else:
            e = c.choose(2099) - 1075
            m = c.pick([1.0, 1.1, 1.9999999999999998, 4.0 / 3])
            v = m * 2.0 ** e if e > -1070 else m * 2.0 ** -1000 * 2.0 ** (e + 1000)
            value = {'b': v, 'lb': [v, -v]}
            if v == float('inf'):
                raise Skip()
        look(c, 'txt', B['Flt'], S.to_wire('Flt', value))
    explore('floats', floats, shard_depth=2)

    def decimals(c):
        # numbers around the switches between positional and exponent notation
        k = c.choose(40) - 20
        d = c.pick([1, 2, 9, 12, 123456789, 999999999999999, 1234567890123456])
        v = float('%de%d' % (d, k))
        v = -v if c.flag() else v
        look(c, 'txt', B['Flt'], S.to_wire('Flt', {'a': f32(v), 'b': v, 'la': [f32(v)], 'lb': [v]}))
    explore('floats/decimal', decimals, shard_depth=1)

    def special(c):
        vals = [0.0, -0.0, float('inf'), float('-inf'), float('nan'), 1.0]
        a, b = c.pick(vals), c.pick(vals)
        look(c, 'txt', B['Flt'], S.to_wire('Flt', {'a': a, 'b': b, 'la': [b, a], 'lb': [a, b]}))
    explore('floats/special', special)

    # ---------------------------------------------------------------- names
    def names(c):
        u = c.pick([{'import': None}, {'defOne': 4}, {'return': b'r'}, {}])
        g = c.pick([{}, {'inGroup': 1}, {'pass': None}, {'longName': b'l'}])
        v = {'fooBar': 1, 'class': c.pick([0, -1]), 'barBaz': g}
        if c.flag():
            v['lambda'] = b'x'
        v.update(u)
        look(c, 'txt', B['Names'], S.to_wire('Names', v))
    explore('names', names)

    # ---------------------------------------------------------------- enumerants
    E = ctx.schema('enums')
    H = E.byname['H']

    def enums(c):
        path, f = c.pick(leaves(E, H))
        t = f.type
        depth = 0
        while t.kind == 'list':
            t, depth = t.elem, depth + 1
        if t.kind != 'enum':
            raise Skip()
        k = len(E.nodes[t.id].enumerants)
        vals = list(range(k)) if k < 20 else [0, 1, 255, 256, 257, 298, 299]
        unknown = [k, k + 1, 255, 256, 65535]
        v = c.pick(vals + [u for u in unknown if u >= k])
        value = {}
        put(value, path, v if depth == 0 else [v, 0] if depth == 1 else [[v], [], [0, v]])
        tree = E.to_wire(H, value)
        look(c, 'enums', H, tree, False if not enumerable(E, H, tree) else True)
    explore('enums', enums, shard_depth=1)

    def tags(c):
        u = c.pick([{'fooBar': None}, {'lambda': 2}, {'name': b'n'}, {'class': None}, {'longOne': None}])
        look(c, 'enums', E.byname['Tags'], E.to_wire('Tags', dict(u, a=5)))
    explore('tags', tags)

    # ---------------------------------------------------------------- every field value of every struct
    for schema in ('zoo', 'unions', 'defaults'):
        fields(ctx, explore, look, schema, th)

    # ---------------------------------------------------------------- trees, sizes and layouts
    Z = ctx.schema('zoo')

    def layouts(c):
        name, tname, tree = c.pick(big_shapes(Z))
        units = wire.units_of(tree)
        seg = {u.idx: c.choose(2) if i < 4 else 1 for i, u in enumerate(units)}
        plan = Plan(seg=seg, nseg=2)
        look(c, 'zoo', Z.byname[tname], tree, True, wire.encode(tree, plan))
    explore('layouts', layouts, shard_depth=2)

    def sizes(c):
        """structs shorter and longer than the schema declares"""
        n = c.pick([Z.byname[x] for x in ('Prims', 'Ptrs', 'Grp', 'Un', 'Inner', 'Tree', 'Leaf', 'Names', 'Two')])
        base = Z.to_wire(n, {f.name: v for f, v in ((f, first(Z, f)) for f in n.fields if f.group is None and f.disc == 0xffff) if v is not None})
        dw = c.choose(n.dw + 2)
        pw = c.choose(n.pw + 2)
        tree = refschema.resize(base, dw, pw)
        if n.name == 'Un':
            tree = refschema.resize(St(b'\0' * len(base.data), base.ptrs), dw, pw)
        inlist = n.name in ('Inner', 'Leaf', 'Names') and c.flag()
        if inlist:
            tree = Z.to_wire('Ptrs', {'l' + n.name.lower(): [tree, tree]})
            n = Z.byname['Ptrs']
        look(c, 'zoo', n, tree, 'loose')
    explore('sizes', sizes, shard_depth=2)
    ctx.sample('executions by scenario: %r' % (dict(list(ctx.ex.scenarios.items())[:4]),))


def first(S, f):
    vs = field_values(S, f) if f.type.kind not in ('anyPointer',) else [None]
    vs = [v for v in vs if v is not None]
    return vs[1 % len(vs)] if vs else None


def enumerable(S, n, st):
    """no unknown enumerants anywhere in the message?"""
    def ok(t, x):
        if t.kind == 'enum':
            return x < len(S.nodes[t.id].enumerants)
        if t.kind == 'list' and x is not None:
            return all(ok(t.elem, y) for y in x)
        if t.kind in ('struct', 'group') and x is not None:
            return okst(S.nodes[t.id], x)
        return True

    def okst(n, d):
        return all(ok(f.type, d[f.name]) for f in n.fields if f.name in d)
    return okst(n, S.from_wire(n, st))


def nulls(S, n, st):
    """null pointers which print like empty values: list items and union members"""
    def items(t, x):
        if x is None or t.kind not in ('list', 'struct', 'group'):
            return False
        if t.kind == 'list':
            return any((y is None and t.elem.is_ptr()) or items(t.elem, y) for y in x)
        return members(S.nodes[t.id], x)

    def members(n, d):
        return any((f.disc != 0xffff and f.type.is_ptr() and d[f.name] is None) or items(f.type, d[f.name])
                   for f in n.fields if f.name in d)
    return members(n, S.from_wire(n, st))


def fields(ctx, explore, look, schema, th):
    S = ctx.schema(schema)
    names = [S.fullname(n) for n in sorted(S.nodes.values(), key=lambda n: n.display)
             if n.kind == 'struct' and not n.is_group and S.file_of(n) == S.main and n.fields]

    def back(n, tree):
        if not enumerable(S, n, tree):
            return False
        return 'loose' if nulls(S, n, tree) else True

    def one(c):
        n = S.byname[c.pick(names, 'struct')]
        lv = leaves(S, n) + list(bools(S, n))
        if not lv:
            look(c, schema, n, S.to_wire(n, {}))
            return
        path, f = c.pick(lv)
        v = c.pick(field_values(S, f))
        c.note('%s=%r' % ('.'.join(path), v))
        value = {}
        put(value, path, v)
        tree = S.to_wire(n, value)
        look(c, schema, n, tree, back(n, tree))
    explore('one/' + schema, one, shard_depth=2)

    def two(c):
        n = S.byname[c.pick(names, 'struct')]
        lv = [x for x in leaves(S, n) if th or x[1].type.is_ptr() or x[1].disc != 0xffff]
        if len(lv) < 2:
            raise Skip()
        i = c.choose(len(lv))
        j = c.choose(len(lv))
        if j <= i or conflict(S, n, lv[i][0], lv[j][0]):
            raise Skip()
        k = 3 if th else 2
        v = c.pick(field_values(S, lv[i][1])[-k:])
        w = c.pick(field_values(S, lv[j][1])[-k:])
        value = {}
        put(value, lv[i][0], v)
        put(value, lv[j][0], w)
        tree = S.to_wire(n, value)
        look(c, schema, n, tree, back(n, tree))
    explore('two/' + schema, two, shard_depth=3)

    def unknown(c):
        """union tags of a newer schema"""
        n = S.byname[c.pick(names, 'struct')]
        us = [x for x in unions(S, n)]
        if not us:
            raise Skip()
        u = c.pick(us)
        tag = c.pick([u.nunion, u.nunion + 1, 255, 65535])
        tree = S.to_wire(n, {})
        d = bytearray(tree.data)
        struct.pack_into('<H', d, u.tagoff * 2, tag)
        look(c, schema, n, St(bytes(d), tree.ptrs), False)
    explore('unknown/' + schema, unknown, shard_depth=1)


def unions(S, n):
    if n.nunion:
        yield n
    for f in n.fields:
        if f.group is not None and f.disc == 0xffff:
            for u in unions(S, S.nodes[f.group]):
                yield u


def bools(S, n):
    """the lists of bool which constructors do not support"""
    for f in n.fields:
        if f.group is None and f.type.kind == 'list' and f.type.elem.kind == 'bool':
            yield (f.name,), f
