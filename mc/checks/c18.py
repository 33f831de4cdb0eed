"""C18: absent values: defaults, null pointers, nullable fields and virtual groups."""
import struct

from mc import wire, refschema
from mc.wire import St
from mc.construct import Maker
from mc.explore import Skip, same, short
from mc.refschema import resize
from mc.shapes import INTS, FLOATS, pointer_values
from mc.view import View, pyname
from mc.checks.c01 import validate_with_capnp
from mc.checks.c02 import put

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': 'explicit defaults at every boundary value of 12 scalar kinds (68 defaults, NaN and -0.0 included) x omitted/the default/every boundary value as '
             'argument, x every stored bit pattern of 6 x every length of the struct; the same defaults in groups, anonymous and named unions; 4 kinds of null '
             'flag x 9-25 nullable groups x every stored flag and value; 15 kinds of pointer x flat/group/union x null, absent, empty and non-empty; 6 virtual '
             'groups x every stored pattern',
    'thorough': 'as quick with every pair of fields, and with all 256 contents of each byte of every struct with defaults'}
ASSUMPTIONS = ['explicit defaults of pointer fields are refused when the schema is compiled (documented restriction)',
               'bits and defaults of the model are cross-checked with the text encoder of the official tool']
KINDS = ['Int8', 'Int16', 'Int32', 'Int64', 'Uint8', 'Uint16', 'Uint32', 'Uint64', 'Float32', 'Float64', 'Bool', 'Enum']
PATTERNS = ['00', 'ff', '01', '80', '7f', '55']


def scalars(t):
    if t.kind == 'bool':
        return [False, True]
    if t.kind == 'enum':
        return [0, 1, 2, 3, 0xffff]
    return dict(INTS, **FLOATS)[t.kind]


def run(ctx):
    import capnpy
    S = ctx.schema('defaults')
    mod = ctx.load('defaults')
    view = View(S, mod)
    th = ctx.thorough
    msgs = {}
    maker = Maker(view)
    kwmaker = Maker(view, 'ctor', 'member', 'kw', 'tuple')

    def settle(c, n, o, value, what):
        want = S.to_wire(n, value)
        view.check_struct(c, n, o, want, what)
        buf = capnpy.dumps(o)
        got = wire.check_created(buf)
        c.check(wire.canon(got) == wire.canon(want), '%s: wrote %r instead of %r' % (what, wire.canon(got), wire.canon(want)))
        c.state(n.name, buf)
        if ctx.first() and n.dw + n.pw:
            msgs.setdefault(n.name, {}).setdefault(buf, wire.canon(want))
        return buf

    def leaves(n, path=(), anys=False):
        out = []
        for f in n.fields:
            if view.nullable(f) or view.virtual(f):
                continue
            if f.group is not None:
                out += leaves(S.nodes[f.group], path + (f.name,), anys)
            elif f.type.kind != 'void' and (anys or f.type.kind != 'anyPointer'):
                out.append((path + (f.name,), f))
        return out

    # ---- arguments: omitted, the default, other values
    def args(c):
        n = S.byname[c.pick(['D' + k for k in KINDS] + ['Nest', 'Uni'])]
        lv = leaves(n)
        path, f = c.pick(lv)
        v = c.pick(scalars(f.type) + [f.default])
        m = c.pick([maker, kwmaker])
        value = {}
        put(value, path, v)
        what = '%s(%s=%r)' % (n.name, '.'.join(path), v)
        c.note(what)
        buf = settle(c, n, m.struct(n, value), value, what)
        if n.name[0] == 'D':
            cls = view.cls(n)
            if same(v, f.default) or f.type.kind == 'enum' and v == f.default:
                c.eq(buf, capnpy.dumps(cls()), '%s differs from leaving the field out' % what)
            # all the other fields given explicitly by their defaults
            full = {x.name: x.default for x in n.fields}
            full[f.name] = v
            c.eq(settle(c, n, m.struct(n, full), full, what + ' and the defaults'), buf, what + ' with explicit defaults')
            c.eq(settle(c, n, m.struct(n, full, positional=True), full, what + ' and the defaults'), buf, what + ' with positional defaults')
    ctx.explore('args', args, shard_depth=2)

    def empty(c):
        n = S.byname[c.pick(['D' + k for k in KINDS] + ['Nest', 'Uni', 'Ptrs', 'Virt', 'NullB', 'NullBt', 'NullI', 'NullIt', 'NullIn'])]
        settle(c, n, view.cls(n)(), {}, n.name + '()')
        if n.name in ('Nest',):
            g = view.cls(n).G()
            settle(c, n, view.cls(n)(g=g), {}, 'Nest(g=Nest.G())')
        o = capnpy.loads(wire.message(St(b'', [])), view.cls(n))
        view.check_struct(c, n, o, St(b'', []), n.name + ' from an empty struct')
    ctx.explore('empty', empty)

    def pairs(c):
        n = S.byname[c.pick(['D' + k for k in KINDS])]
        lv = leaves(n)
        i, j = c.choose(len(lv)), c.choose(len(lv))
        if j <= i:
            raise Skip()
        value = {}
        for k in (i, j):
            vs = scalars(lv[k][1].type)
            put(value, lv[k][0], c.pick(vs if th else vs[:3]))
        settle(c, n, maker.struct(n, value), value, '%s(%s)' % (n.name, value))
    ctx.explore('pairs', pairs, shard_depth=2)

    # ---- stored bits
    def tagged(n, data, tag):
        if n.nunion:
            struct.pack_into('<H', data, n.tagoff * 2, tag % n.nunion)
        for f in n.fields:
            if f.group is not None and S.nodes[f.group].nunion and not view.nullable(f):
                tagged(S.nodes[f.group], data, tag)

    def stored(c):
        name = c.pick(['D' + k for k in KINDS] + ['Nest', 'Uni'])
        n = S.byname[name]
        pat = bytearray(bytes.fromhex(c.pick(PATTERNS))) * (n.dw * 8)
        tag = 0
        if name == 'Uni':
            tag = c.choose(n.nunion)
            tagged(n, pat, tag)
        size = c.choose(n.dw + 2)
        st = resize(St(bytes(pat), [None] * n.pw), size, 0)
        c.state(name, st.key())
        c.note('%s %d words of %02x tag=%d' % (name, size, pat[0], tag))
        o = capnpy.loads(wire.message(st), view.cls(n))
        view.check_struct(c, n, o, st, name)
    ctx.explore('stored', stored, shard_depth=1)

    if th:
        def bytewise(c):
            name = c.pick(['D' + k for k in KINDS])
            n = S.byname[name]
            i = c.choose(n.dw * 8)
            for b in range(256):
                data = bytearray(n.dw * 8)
                data[i] = b
                st = St(bytes(data), [])
                c.state(name, i, b)
                view.check_struct(c, n, capnpy.loads(wire.message(st), view.cls(n)), st, '%s byte %d = %d' % (name, i, b))
        ctx.explore('bytewise', bytewise, shard_depth=2)

    # ---- nullable groups
    def nullable_args(c):
        n = S.byname[c.pick(['NullB', 'NullBt', 'NullI', 'NullIt', 'NullC'])]
        f = c.pick(n.fields)
        g = S.nodes[f.group]
        y = g.byname['value']
        flag = g.fields[0]
        null = c.flag()
        if null:
            gv = {'isNull': True if flag.type.kind == 'bool' else 1}
            if not y.group:
                gv['value'] = y.default
        else:
            gv = {'isNull': False if flag.type.kind == 'bool' else 0}
            gv['value'] = c.pick([{'x': -1, 'y': 0.0, 'z': b'z'}, {'x': 0, 'y': 2.5, 'z': None}]) if y.group else c.pick(scalars(y.type))
        value = {f.name: gv}
        c.note('%s(%s)' % (n.name, value))
        if n.name == 'NullC':
            o = view.cls(n)(aB=None if null else gv['value'])
            c.eq(o.aB, None if null else gv['value'], 'aB')
            got = wire.check_created(capnpy.dumps(o))
            c.check(wire.canon(got) == wire.canon(S.to_wire(n, value)), 'NullC: wrote %r' % got)
            return
        settle(c, n, maker.struct(n, value), value, '%s(%s)' % (n.name, value))
    ctx.explore('nullable/args', nullable_args, shard_depth=2)

    def nullable_stored(c):
        n = S.byname[c.pick(['NullB', 'NullBt', 'NullI', 'NullIt'])]
        pat = bytearray(bytes.fromhex(c.pick(PATTERNS))) * (n.dw * 8)
        inv = c.choose(len(n.fields) + 1)
        if inv:
            # only one of the flags is different
            flag = S.nodes[n.fields[inv - 1].group].fields[0]
            if flag.type.kind == 'bool':
                pat[flag.offset // 8] ^= 1 << flag.offset % 8
            else:
                pat[flag.offset] ^= 1
        size = c.pick([n.dw, n.dw // 2, 1, 0] if not inv else [n.dw])
        ptrs = [wire.text(b'zz')] * n.pw if c.flag() else []
        st = resize(St(bytes(pat), ptrs), size, len(ptrs))
        c.state(n.name, st.key())
        view.check_struct(c, n, capnpy.loads(wire.message(st), view.cls(n)), st, n.name)
    ctx.explore('nullable/stored', nullable_stored, shard_depth=2)

    def nullable_nested(c):
        n = S.byname['NullIn']
        a = c.pick([{}, {'isNull': False, 'value': 0}, {'isNull': False, 'value': 5}, {'isNull': True}, {'isNull': False, 'value': -1}])
        t = c.pick([None, b'', b'tt'])
        b = c.pick([None, {'none': None}, {'b': {'isNull': True}}, {'b': {'isNull': False, 'value': -5}}, {'b': {'isNull': False, 'value': 0}}, {'c': b'cc'}])
        gv = {'t': t}
        if a:
            gv['a'] = a
        value = {'g': gv}
        value.update(b or {})
        c.note('NullIn(%s)' % value)
        m = c.pick([maker, kwmaker])
        settle(c, n, m.struct(n, value), value, 'NullIn(%s)' % value)
    ctx.explore('nullable/nested', nullable_nested)

    # ---- null pointers
    def pointers(c):
        n = S.byname[c.pick(['Ptrs', 'Anys'])]
        lv = [(p, f) for p, f in leaves(n, anys=True) if f.type.is_ptr()]
        path, f = c.pick(lv)
        t = f.type
        vals = pointer_values(S, t, (0, 1, 3))[:4] if t.kind != 'anyPointer' else [None, wire.text(b'any')]
        v = c.pick(vals)
        read_only = t.kind == 'anyPointer' or t.kind == 'list' and t.elem.kind == 'bool' and v
        tag = 0
        value = {}
        put(value, path, v)
        c.note('%s.%s = %s' % (n.name, '.'.join(path), short(v, 60)))
        st = S.to_wire(n, value)
        # read: full size, and cut before/after the field
        for cut in (n.pw, f.offset + 1, f.offset, 0):
            s = resize(st, n.dw, cut)
            o = capnpy.loads(wire.message(s), view.cls(n))
            view.check_struct(c, n, o, s, '%s with %d pointers' % (n.name, cut))
            c.state(s.key())
        if not read_only:
            for m in (maker, kwmaker):
                settle(c, n, m.struct(n, value), value, 'Ptrs(%s)' % short(value))
    ctx.explore('pointers', pointers, shard_depth=1)

    # ---- virtual groups
    def virtual(c):
        n = S.byname['Virt']
        pat = bytes.fromhex(c.pick(PATTERNS)) * (n.dw * 8)
        full = S.to_wire(n, {'t': c.pick([None, b'', b'txt']), 'tU': c.pick([None, b'uni']), 's': c.pick([None, {'x': 4, 't': b'leaf'}]),
                             'l': c.pick([None, [], [1, -2]]), 'g': {'b': c.pick([None, b'bb'])}})
        st = resize(St(pat, full.ptrs), c.pick([n.dw, 1, 0]), c.pick([n.pw, 1]))
        c.state(st.key())
        o = capnpy.loads(wire.message(st), view.cls(n))
        view.check_struct(c, n, o, st, 'Virt')
        c.check(o.some == (o.y, o.t) and not (o.some != (o.y, o.t)), 'some does not equal the tuple of its fields')
        c.check(o.rev == (o.t, o.y), 'rev does not equal the tuple of its fields')
        c.check(o.camel_group == (o.camel_case,), 'camel_group does not equal the tuple of its key')
        c.eq(hash(o.some), hash((o.y, o.t)), 'hash(some)')
        c.check(o.some != (not o.y, o.t) and o.rev != (o.t, not o.y), 'a virtual group equals different values')
    ctx.explore('virtual', virtual, shard_depth=2)

    def virtual_args(c):
        n = S.byname['Virt']
        value = {}
        for nm, vals in (('x', [0, 3, -1]), ('y', [True, False]), ('t', [None, b'tt']), ('f', [0.5, 0.0]), ('c', [1, 0, 2]), ('l', [None, [1]]), ('camelCase', [9, 0])):
            v = c.pick([None] + vals)
            if v is not None:
                value[nm] = v
        settle(c, n, maker.struct(n, value), value, 'Virt(%s)' % value)
    ctx.explore('virtual/args', virtual_args, shard_depth=3)

    # ---- the model of defaults agrees with the official tool
    if ctx.first() and not ctx.replay and not ctx.only:
        crosscheck(ctx, S, leaves)
        for name, m in sorted(msgs.items()):
            bufs = sorted(m)
            validate_with_capnp(ctx, name, bufs, [m[b] for b in bufs], 'defaults')


def crosscheck(ctx, S, leaves):
    """encode one field at a time with the text encoder of the official tool"""
    for name in ['D' + k for k in KINDS] + ['Nest', 'Uni']:
        n = S.byname[name]
        texts, wants = [], []
        for path, f in leaves(n):
            for v in scalars(f.type):
                if f.type.kind == 'enum':
                    if v > 2:
                        continue
                    lit = ['red', 'green', 'blue'][v]
                elif f.type.kind == 'bool':
                    lit = 'true' if v else 'false'
                else:
                    lit = repr(v)
                t = '%s = %s' % (path[-1], lit)
                for p in reversed(path[:-1]):
                    t = '%s = (%s)' % (p, t)
                texts.append(('(%s)\n' % t).encode())
                value = {}
                put(value, path, v)
                wants.append(wire.canon(S.to_wire(n, value)))
        rc, out, err = refschema.capnp_convert('text:binary', texts, ctx.schema_file('defaults'), name, [ctx.ws])
        assert rc == 0, err[-400:]
        pos = 0
        for t, w in zip(texts, wants):
            segs, pos = wire.unframe(out, pos)
            got = wire.canon(wire.decode(segs))
            assert got == w, 'the model disagrees with the capnp tool on %s %s: %r != %r' % (name, t, got, w)
            ctx.count('defaults_cross_checked_with_capnp_tool')
