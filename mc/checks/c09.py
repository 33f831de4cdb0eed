"""C09: keyed structs compare and hash like the tuple of their key fields."""
import itertools

from mc import wire, refschema
from mc.explore import Skip
from mc.shapes import all_layout
from mc.view import View, pyname
from mc.construct import Maker

MODES = ('pyx', 'cpy', 'pure', 'pypy')
SHARDS = {'quick': {}, 'thorough': {'cpy': 2, 'pypy': 2, 'pyx': 2}}
BOUNDS = {
    'quick': '18 key declarations (every field kind, order, nesting, groups, nullable groups, union members, lists, no key) x every pair of key values '
             'from the alphabets (one field at a time; pairs of fields), compared with each other, with tuples, with structs of the other types and with foreign '
             'objects, hashed and used as dict keys; every layout with 2 segments and far pointers of 5 keyed trees; every version size of the wire struct; '
             'every 64-bit integer 2**k + {-1, 0, 1} and multiples of 2**61-1, texts of 0-40 bytes',
    'thorough': 'as quick with 3 segments and all pairs of fields x all values'}
ASSUMPTIONS = ['the key tuple holds the Python values of the fields (a nested keyed struct or group counts as its own key tuple)',
               'NaN is excluded: Python tuples compare it by identity']
KEYS = {'Nest': ['x', 'name'], 'Deep': ['nest', 'flag'], 'Ints': ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64'],
        'Dflt': ['a', 'b', 'c', 'd', 'e'], 'Misc': ['color', 'f64', 'b', 'f32', 'v'], 'Texts': ['t', 'u', 'd'], 'One': ['camelName'],
        'Rev': ['c', 'a'], 'Grp': ['g', 'z'], 'Nul': ['n', 'm'], 'Un': ['a', 't'], 'UnU': ['a', 't'], 'UnI': ['t', 'a'], 'UnN': ['u'],
        'OverNoKey': ['n'], 'Lst': ['a', 'l'], 'Grp.g': ['y', 'x']}
P61 = (1 << 61) - 1
INTS = sorted(set(s * ((1 << k) + d) for k in range(65) for d in (-1, 0, 1) for s in (1, -1)) |
              set(k * P61 + d for k in range(-8, 9) for d in (-1, 0, 1)) | {85, 170, 12345678901})
TEXT = [None, b'', b'a', b'b', b'A', b'hello', b'caf\xc3\xa9', b'a\0b', b'-1', b'\xf0\x9f\x90\x8d', b'x' * 23]


class Inactive(Exception):
    pass


def alphabet(t, name):
    k = t.kind
    if k in ('text', 'data'):
        return TEXT
    if k == 'bool':
        return [False, True]
    if k == 'void':
        return [None]
    if k == 'enum':
        return [0, 1, 2, 3, 65535]
    if k == 'float32':
        return [0.0, -0.0, 1.0, 1.5, -2.0, float('inf'), 2.0 ** 100, -1.0]
    if k == 'float64':
        return [0.0, -0.0, 1.0, 0.1, -2.0, float('-inf'), 1e300, 2.0 ** 63, -1.0]
    if k in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64'):
        bits = t.bits
        lo, hi = (0, (1 << bits) - 1) if k[0] == 'u' else (-(1 << bits - 1), (1 << bits - 1) - 1)
        return [0, 1] + [x for x in (-1, -2, 2, 85, lo, hi, hi - 1, P61, P61 - 1, -P61, 1 << 61) if lo <= x <= hi]
    if k == 'struct':
        return [None, {}, {'x': -1}, {'x': -2, 'name': b''}, {'x': 5, 'name': b'k', 'extra': 3}, {'x': 5, 'name': b'k'}]
    if k == 'list':
        if t.elem.kind == 'struct':
            return [None, [], [{}], [{'x': 3}], [{'x': 3, 'extra': 1}], [{'x': 3}, {'name': b'q'}]]
        return [None, [], [0], [1, 2], [1, 2, 3], [-1]]
    raise KeyError(k)


def run(ctx):
    import capnpy
    S = ctx.schema('keys')
    mod = ctx.load('keys')
    view = View(S, mod)
    maker = Maker(view)

    # ---- the model: key tuples
    def key(n, st):
        full = S.fullname(n)
        names = KEYS[full] if full in KEYS else None
        if names is None:
            raise TypeError('no key')
        return tuple(keyval(n, n.byname[f], st) for f in names)

    def keyval(n, f, st):
        from mc.refschema import _u, _p
        if f.disc != 0xffff and _u(st, n.tagoff * 16, 16) != f.disc:
            raise Inactive()
        if f.group is not None:
            g = S.nodes[f.group]
            if 'isNull' in g.byname:
                return None if S.read_slot(g.byname['isNull'], st) else S.read_slot(g.byname['value'], st)
            return key(g, st)
        if f.type.kind == 'struct':
            x = _p(st, f.offset)
            return None if x is None else key(S.nodes[f.type.id], x)
        if f.type.kind == 'list':
            x = _p(st, f.offset)
            if x is None:
                return None
            if f.type.elem.kind == 'struct':
                return [key(S.nodes[f.type.elem.id], it) for it in x.items]
            return S.untree(f.type, x)
        return view.textconv(f, S.read_slot(f, st)) if f.type.kind == 'text' and f.name in UNI.get(n.name, ()) else S.read_slot(f, st)
    UNI = {'Texts': ['u'], 'UnU': ['t']}
    # (View.textconv decides by the name of the field)
    view.textconv = lambda f, v: v if v is None else v.decode('utf-8')

    def load(n, st, plan=None):
        return capnpy.loads(wire.frame(wire.encode(st, plan)), view.cls(n))

    def k_of(n, st):
        try:
            return key(n, st), None
        except Inactive:
            return None, ValueError
        except TypeError:
            return None, TypeError

    def hash_of(x):
        try:
            return hash(x)
        except (TypeError, ValueError) as e:
            return type(e)

    def has_list(k):
        return isinstance(k, list) or isinstance(k, tuple) and any(has_list(x) for x in k)

    class Foreign(object):
        pass
    FOREIGN = [None, 0, 'abc', b'abc', [], {}, Foreign(), object, 1.5, True]

    def pair(c, n, st, n2, st2, what):
        """compare two objects in every way"""
        a, b = load(n, st), load(n2, st2)
        ka, ea = k_of(n, st)
        kb, eb = k_of(n2, st2)
        c.state(S.fullname(n), S.fullname(n2), repr(ka), repr(kb))
        for x, y in ((a, b), (b, a)):
            if ea or eb:
                try:
                    got = x == y
                except (TypeError, ValueError) as e:
                    c.check(type(e) in (ea, eb), '%s: == raised %r' % (what, e))
                    continue
                # comparing may stop at the first difference, but equality cannot be known
                c.check(got is False and n.name != 'NoKey' and n2.name != 'NoKey', '%s: == answered %r although a key is unavailable' % (what, got))
                continue
            same = ka == kb
            c.eq(x == y, same, '%s: ==' % what)
            c.eq(x != y, not same, '%s: !=' % what)
        if ea or eb:
            return
        # plain tuples
        for kk, x in ((kb, a), (ka, b)):
            same = ka == kb
            if not has_list(kk):
                c.eq(x == kk, same, '%s: == tuple %r' % (what, kk))
                c.eq(kk == x, same, '%s: tuple %r ==' % (what, kk))
                c.eq(x != kk, not same, '%s: != tuple' % what)
        if not has_list(ka) and not has_list(kb):
            ha, hb = hash(a), hash(b)
            c.eq(ha, hash(ka), '%s: hash of %r' % (what, ka))
            c.eq(hb, hash(kb), '%s: hash of %r' % (what, kb))
            d = {a: 1}
            c.eq(d.get(b), 1 if ka == kb else None, '%s: dict lookup' % what)
            c.eq(d.get(kb), 1 if ka == kb else None, '%s: dict lookup by tuple' % what)
            c.eq({ka: 1}.get(b), 1 if ka == kb else None, '%s: lookup in a dict of tuples' % what)
            c.eq(len(set([a, b, ka, kb])), 1 if ka == kb else 2, '%s: set' % what)

    def single(c, n, st, what):
        a = load(n, st)
        ka, ea = k_of(n, st)
        h = hash_of(a)
        if ea:
            c.check(h is ea, '%s: hash gave %r instead of %s' % (what, h, ea.__name__))
        elif has_list(ka):
            c.check(h is TypeError, '%s: hash gave %r although a list is not hashable' % (what, h))
        else:
            c.eq(h, hash(ka), '%s: hash of %r' % (what, ka))
            c.eq(hash(a), h, '%s: hash twice' % what)
            c.check(a == ka and ka == a and not a != ka, '%s: not equal to its own tuple %r' % (what, ka))
            c.check(a == a and not a != a, '%s: not equal to itself' % what)
            for wrong in (ka + (0,), ka[:-1], ka + ka, tuple(reversed(ka)), ()):
                c.eq(a == wrong, ka == wrong, '%s: == %r' % (what, wrong))
            c.eq(a == list(ka), False, '%s: == a list' % what)
        if not ea:
            for f in FOREIGN:
                c.eq(a == f, False, '%s: == %r' % (what, f))
                c.eq(a != f, True, '%s: != %r' % (what, f))
        import operator
        for op in (operator.lt, operator.le, operator.gt, operator.ge):
            for other in (a, (1,), None, 3):
                for x, y in ((a, other), (other, a)):
                    try:
                        r = op(x, y)
                    except TypeError:
                        c.step()
                        continue
                    c.fail('%s: %s answered %r' % (what, op.__name__, r))

    NAMES = [x for x in sorted(KEYS) if '.' not in x] + ['NoKey']

    def members(n):
        out = []
        for f in n.fields:
            if f.group is not None:
                out += [(f.name, g) for g in S.nodes[f.group].fields]
            else:
                out.append((None, f))
        return out

    def value(n, sets):
        v = {}
        for (grp, f), x in sets:
            if grp:
                v.setdefault(grp, {})[f.name] = x
            else:
                v[f.name] = x
        if n.nunion:
            act = [f.name for f in n.fields if f.disc != 0xffff and f.name in v]
            if len(act) > 1:
                raise Skip()
        return S.to_wire(n, v)

    def vals(f):
        if f.type.kind == 'struct' and S.nodes[f.type.id].name == 'NoKey':
            return [None, {}, {'a': 1}]
        return alphabet(f.type, f.name)

    # ---- every pair of values of every field (key or not)
    def pairs(c):
        n = S.byname[c.pick(NAMES)]
        m = c.pick(members(n))
        vs = vals(m[1])
        u = c.choose(len(vs))
        v = c.choose(len(vs))
        others = [x for x in members(n) if x is not m]
        base = [(x, vals(x[1])[-1]) for x in others if x[1].disc == 0xffff] if c.flag('based') else []
        a = value(n, base + [(m, vs[u])])
        b = value(n, base + [(m, vs[v])])
        pair(c, n, a, n, b, '%s.%s %r/%r' % (n.name, m[1].name, vs[u], vs[v]))
        if u == v:
            single(c, n, a, '%s.%s %r' % (n.name, m[1].name, vs[u]))
    ctx.explore('pairs', pairs, shard_depth=2)

    # ---- two fields at a time: the tuple is ordered and nothing is swapped
    def pairs2(c):
        n = S.byname[c.pick(NAMES)]
        ms = members(n)
        i = c.choose(len(ms))
        j = c.choose(len(ms))
        if j == i or not ctx.thorough and j < i:
            raise Skip()
        vi, vj = vals(ms[i][1]), vals(ms[j][1])
        if not ctx.thorough:
            vi, vj = vi[:4], vj[:4]
        x, y = c.pick(vi), c.pick(vj)
        a = value(n, [(ms[i], x), (ms[j], y)])
        try:
            b = value(n, [(ms[i], y), (ms[j], x)])
        except Exception:
            b = value(n, [(ms[i], x)])
        pair(c, n, a, n, b, '%s.%s,%s %r,%r' % (n.name, ms[i][1].name, ms[j][1].name, x, y))
    ctx.explore('pairs2', pairs2, shard_depth=2)

    # ---- union tags: every tag, with garbage in the inactive members
    def unions(c):
        n = S.byname[c.pick(['Un', 'UnU', 'UnI', 'UnN'])]
        tag = c.pick([0, 1, 2, 3, 255, 32767, 32768, 65535])
        fill = c.pick([0, 1, 0xff])
        st = S.to_wire(n, {'a': 3})
        data = bytearray([fill]) * len(st.data)
        data[n.tagoff * 2:n.tagoff * 2 + 2] = bytes(bytearray([tag & 255, tag >> 8]))
        p = c.pick([None, wire.text(b'abc')]) if n.name in ('Un', 'UnU') else c.pick([None, S.to_wire('Nest', {'x': 3})])
        single(c, n, wire.St(bytes(data), [p] * n.pw), '%s tag %d' % (n.name, tag))
    ctx.explore('unions', unions)

    # ---- different types
    def types(c):
        n, n2 = S.byname[c.pick(NAMES)], S.byname[c.pick(NAMES)]
        i, j = c.choose(2), c.choose(2)

        def val(n, i):
            return value(n, [(m, vals(m[1])[1 % len(vals(m[1]))]) for m in members(n) if m[1].disc == 0xffff] if i else [])
        pair(c, n, val(n, i), n2, val(n2, j), '%s/%s' % (n.name, n2.name))
    ctx.explore('types', types)

    # ---- integers: the hash is computed without Python objects
    def ints(c):
        name = c.pick(['i64', 'u64', 'i32', 'u32'])
        n = S.byname['Ints']
        f = n.byname[name]
        lo, hi = (0, (1 << f.type.bits) - 1) if name[0] == 'u' else (-(1 << f.type.bits - 1), (1 << f.type.bits - 1) - 1)
        v = c.pick([x for x in INTS if lo <= x <= hi])
        single(c, n, S.to_wire(n, {name: v}), 'Ints.%s=%d' % (name, v))
    ctx.explore('ints', ints)

    # ---- texts of every length, with every byte
    def texts(c):
        n = S.byname['Texts']
        name = c.pick(['t', 'd', 'u'])
        k = c.choose(41)
        b = c.pick([0x61, 0, 0xff, 0x80, 0x7f] if name != 'u' else [0x61, 0])
        v = bytes(bytearray([b])) * k
        st = S.to_wire(n, {name: v})
        single(c, n, st, 'Texts.%s=%r' % (name, v))
        if name != 'd' and k:
            # a text without NUL terminator, a list which is not a text
            for raw in (wire.Pl(2, k, v), ):
                i = n.byname[name].offset
                st.ptrs[i] = raw
                a = load(n, st)
                tup = (a.t, a.u, a.d)
                c.eq(hash(a), hash(tup), 'hash of an unterminated text %r' % v)
    ctx.explore('texts', texts)

    # ---- layouts
    LAY = [('Texts', {'t': b'hello', 'u': b'world', 'd': b'\1\2'}), ('Deep', {'flag': True, 'nest': {'x': 7, 'name': b'nn', 'extra': 2}}),
           ('Grp', {'g': {'x': 3, 'y': b'yy'}, 'z': -1}), ('One', {'other': b'oo', 'camelName': b'cc'}), ('Un', {'a': 1, 't': b'tt'}),
           ('UnU', {'a': 1, 't': b'tt'})]

    def layouts(c):
        tname, v = c.pick(LAY)
        n = S.byname[tname]
        st = S.to_wire(n, v)
        plan = all_layout(c, st, nseg=3 if ctx.thorough and tname != 'Texts' else 2, gaps=(0, 1), dev=tname == 'Texts' and not ctx.thorough)
        a = load(n, st, plan)
        k = key(n, st)
        c.state(tname, wire.frame(wire.encode(st, plan)))
        c.eq(hash(a), hash(k), '%s: hash' % tname)
        b = load(n, st)
        c.check(a == k and k == a and a == b and b == a and not a != b, '%s: equality across layouts' % tname)
        c.eq({b: 1}.get(a), 1, '%s: lookup' % tname)
    ctx.explore('layouts', layouts, max_dev=3, shard_depth=2)

    # ---- wire structs of other versions
    def versions(c):
        n = S.byname[c.pick([x for x in NAMES if x not in ('NoKey', 'OverNoKey')])]
        sets = [(m, vals(m[1])[c.pick([-1, 1]) % len(vals(m[1]))]) for m in members(n) if m[1].disc == 0xffff][:3]
        st = value(n, sets)
        dw = c.choose(n.dw + 2)
        pw = c.choose(n.pw + 2)
        single(c, n, refschema.resize(st, dw, pw), '%s of %d+%d words' % (n.name, dw, pw))
        big = refschema.resize(st, dw, pw)
        pair(c, n, big, n, st, '%s of %d+%d words' % (n.name, dw, pw))
    ctx.explore('versions', versions, shard_depth=1)

    # ---- objects reached in other ways: constructed, list items, fields, groups, compacted
    def reached(c):
        v = c.pick([x for x in alphabet(S.byname['Deep'].byname['nest'].type, '') if x is not None])
        n = S.byname['Nest']
        k = key(n, S.to_wire(n, v))
        st = S.to_wire('Holder', {'l': [{}, v, {'x': 99}], 'g': {'n': v}})
        h = load(S.byname['Holder'], st)
        objs = [maker.struct(n, v), h.l[1], h.g.n, h.l[1].compact(), h.compact().l[1], capnpy.loads(h.l[1].dumps(), mod.Nest),
                mod.Holder(l=[h.l[1]]).l[0]]
        for i, a in enumerate(objs):
            c.eq(hash(a), hash(k), 'object %d: hash' % i)
            for b in objs:
                c.check(a == b and not a != b, 'object %d: equality' % i)
            c.check(a == k and k == a, 'object %d: equality with %r' % (i, k))
            c.check(a in h.l and k in h.l, 'object %d: membership' % i)
            c.eq(a == h.l[2], k == (99, None), 'object %d against another' % i)
    ctx.explore('reached', reached)
    ctx.sample('keys: %r' % KEYS)
