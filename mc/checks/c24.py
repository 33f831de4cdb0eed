"""C24: enums convert faithfully between numbers, names and members."""
import copy
import pickle
import struct
import sys

from mc import wire, refschema
from mc.explore import short
from mc.view import View, pyname

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 1}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': '11 enums (no member, 1 member, 300 members, ordinals out of order, camelCase, Python keywords, names of int methods and of enum attributes, '
             'nested, nested deeper under the same name, imported) x every number 0-65535 through direct construction; every declared number, the first '
             'undeclared ones and every power of two +-1 through fields with and without default, union members, groups and list items '
             '(read, constructed, reread, printed, copied); union tags with every tag value 0-65535; constants; the runtime enum() helper',
    'thorough': 'as quick with every number 0-65535 through every path'}
ASSUMPTIONS = ['numbers and names of the members are those the official compiler reports']


def numbers(k):
    out = set(range(k + 3)) | set([65535, 65534, 32767, 32768, 32769])
    for b in range(16):
        out |= set([1 << b, (1 << b) - 1, (1 << b) + 1])
    return sorted(x for x in out if x <= 65535)


def run(ctx):
    import capnpy
    from capnpy.enum import BaseEnum, enum
    S = ctx.schema('enums')
    comp = ctx.compiler()
    mod = comp.load_schema(importname='/enums.capnp', pyx=ctx.pyx)
    sys.modules[mod.__name__] = mod       # what importing the module of a compiled schema does; pickle needs it
    view = View(S, mod)
    th = ctx.thorough
    H = S.byname['H']
    # every enum which is the type of a field of H
    slots = []          # (path of accessor names, field, node)
    for f in H.fields:
        if f.group is not None:
            slots += [((f, g), g) for g in S.nodes[f.group].fields]
        elif f.type.kind == 'enum':
            slots.append(((f,), f))
    lists = [f for f in H.fields if f.type.kind == 'list']
    imported = [n for n in S.nodes.values() if n.kind == 'enum' and n.name == 'Imported'][0]

    other = comp.load_schema(importname='/enums2.capnp', pyx=ctx.pyx)

    def cls_of(n):
        if n is imported:
            return other.Imported
        return view.cls(n)

    def names_of(n):
        if n is imported:
            return list(n.enumerants)
        return [pyname(x) for x in n.enumerants]
    allnodes = sorted([n for n in S.nodes.values() if n.kind == 'enum' and 'annotate' not in n.display], key=lambda n: (n.name, n.id))

    def is_value(c, v, n, k, what):
        """v is the value k of the enum n"""
        cls, names = cls_of(n), names_of(n)
        c.check(type(v) is cls, '%s: the type is %r' % (what, type(v)))
        c.check(int(v) == k and v == k and not v != k and hash(v) == hash(k) and v == cls(k), '%s: %s is not equal to %d' % (what, short(int(v)), k))
        c.check(not v == k + 1 and v < k + 1 and v >= k, '%s: order' % what)
        want = names[k] if k < len(names) else 'unknown<%d>' % k
        c.eq(str(v), want, 'str(%s)' % what)
        c.eq(repr(v), '<%s.%s: %d>' % (cls.__name__, want, k), 'repr(%s)' % what)
        if 'name' not in names:
            c.eq(v.name, want, '%s.name' % what)

    # ---- members
    def members(c):
        n = c.pick(allnodes, 'enum')
        cls, names = cls_of(n), names_of(n)
        c.state(n.name, n.id)
        c.check(issubclass(cls, BaseEnum) and issubclass(cls, int), '%s is not an enum' % n.name)
        c.check(cls.__name__.endswith(n.name), 'name of the class: %s' % cls.__name__)
        c.eq(tuple(cls.__members__), tuple(names), '%s.__members__' % n.name)
        for i, nm in enumerate(names):
            is_value(c, getattr(cls, nm), n, i, '%s.%s' % (n.name, nm))
            # members are reachable from values too, like in any int subclass with class attributes
            c.check(getattr(cls(i), nm) == i, '%s(%d).%s' % (n.name, i, nm))
        c.eq(cls.__capnpy_id__, n.id, '%s.__capnpy_id__' % n.name)
    ctx.explore('members', members)

    def direct(c):
        n = c.pick(allnodes, 'enum')
        hi = c.choose(64)
        c.state(n.name, n.id, hi)
        cls, names = cls_of(n), names_of(n)
        some = set(numbers(len(names)))
        for k in range(hi * 1024, hi * 1024 + 1024):
            if th or k in some:
                is_value(c, cls(k), n, k, '%s(%d)' % (n.name, k))
            else:
                v = cls(k)
                if not (v == k and str(v) == 'unknown<%d>' % k):
                    c.fail('%s(%d) is %r' % (n.name, k, v))
        c.step(1024)
    ctx.explore('direct', direct, shard_depth=2)

    def unsound(c):
        """numbers which are no enum value"""
        n = c.pick(allnodes, 'enum')
        k = c.pick([-1, -2, -300, 65536, 65537, 1 << 31, 1 << 32, 1 << 64, -(1 << 31)])
        c.state(n.name, n.id, k)
        v = cls_of(n)(k)
        c.check(int(v) == k, 'int')
        c.eq(str(v), 'unknown<%d>' % k, 'str(%s(%d))' % (n.name, k))
        c.check(str(k) in repr(v), 'repr(%s(%d)) is %r' % (n.name, k, repr(v)))
    ctx.explore('unsound', unsound)

    # ---- fields
    def wire_of(path, k):
        v = k
        for f in reversed(path):
            v = {f.name: v}
        return S.to_wire(H, v)

    def get(o, path):
        for f in path:
            o = getattr(o, pyname(f.name))
        return o

    def fields(c):
        path, f = c.pick(slots)
        n = S.nodes[f.type.id]
        ks = list(range(65536)) if th else numbers(len(n.enumerants))
        chunk = 2048
        i = c.choose((len(ks) + chunk - 1) // chunk)
        names = names_of(n)
        cls = cls_of(n)
        what = '.'.join(x.name for x in path)
        full = i == 0
        for j, k in enumerate(ks[i * chunk:(i + 1) * chunk]):
            c.state(what, k)
            w = '%s=%d' % (what, k)
            o = capnpy.loads(wire.message(wire_of(path, k)), view.cls(H))
            is_value(c, get(o, path), n, k, w)
            want = names[k] if k < len(names) else 'unknown<%d>' % k
            # written by the constructor, as int, as member, and (declared) by name
            if len(path) == 1:
                for arg in (k, cls(k)):
                    o2 = view.cls(H)(**{pyname(f.name): arg})
                    is_value(c, get(o2, path), n, k, w + ' (constructed)')
                    if j < 400:
                        got = S.from_wire(H, wire.decode_message(capnpy.dumps(o2)))
                        c.eq(got[f.name], k, w + ' on the wire')
            if j < 64 or k > len(names) - 3:
                o3 = capnpy.loads(capnpy.dumps(o), view.cls(H))
                is_value(c, get(o3, path), n, k, w + ' (copied)')
                o4 = pickle.loads(pickle.dumps(o, 2))
                is_value(c, get(o4, path), n, k, w + ' (pickled)')
                is_value(c, get(o.compact(), path), n, k, w + ' (compact)')
                t = o.shortrepr()
                c.check(k == 0 and f.default == 0 or '%s = ' % f.name in t, '%s is not in %s' % (w, t))
    ctx.explore('fields', fields, shard_depth=1)

    # ---- values themselves: copies and pickles
    def copies(c):
        n = c.pick(allnodes, 'enum')
        for k in numbers(len(n.enumerants)):
            c.state(n.name, n.id, k)
            v = cls_of(n)(k)
            is_value(c, copy.copy(v), n, k, 'copy of %s(%d)' % (n.name, k))
            is_value(c, copy.deepcopy(v), n, k, 'deepcopy of %s(%d)' % (n.name, k))
            c.check({v: 1}[k] == 1 and k in set([v]) and [0] * 0 + list(range(3))[v:v] == [], 'as key and index')
            c.check(struct.pack('<H', v) == struct.pack('<H', k), 'packing')
    ctx.explore('copies', copies)

    # ---- lists
    def listed(c):
        f = c.pick([f for f in lists if f.type.elem.kind == 'enum'])
        n = S.nodes[f.type.elem.id]
        ks = list(range(65536)) if th else numbers(len(n.enumerants))
        c.state(f.name)
        o = capnpy.loads(wire.message(S.to_wire(H, {f.name: ks})), view.cls(H))
        lst = getattr(o, pyname(f.name))
        c.eq(len(lst), len(ks), 'len')
        for i, (k, x) in enumerate(zip(ks, lst)):
            is_value(c, x, n, k, '%s[%d] (iterated)' % (f.name, i))
            is_value(c, lst[i], n, k, '%s[%d]' % (f.name, i))
            is_value(c, lst[i - len(ks)], n, k, '%s[%d]' % (f.name, i - len(ks)))
        c.check(lst == ks and lst[1:4] == ks[1:4], 'equality')
        cls = cls_of(n)
        for src in (ks, tuple(ks), [cls(k) for k in ks], lst):
            o2 = view.cls(H)(**{pyname(f.name): src})
            for k, x in zip(ks, getattr(o2, pyname(f.name))):
                is_value(c, x, n, k, '%s (constructed)' % f.name)
            got = S.from_wire(H, wire.decode_message(capnpy.dumps(o2)))
            c.eq(got[f.name], ks, f.name + ' on the wire')
    ctx.explore('listed', listed)

    # ---- union tags
    T = S.byname['Tags']
    tags = {f.disc: pyname(f.name) for f in T.fields if f.disc != 0xffff}

    def tag(c):
        hi = c.choose(64)
        for k in range(hi * 1024, hi * 1024 + 1024) if th or hi in (0, 31, 32, 63) else [hi * 1024]:
            c.state(k)
            data = bytearray(T.dw * 8)
            struct.pack_into('<H', data, T.tagoff * 2, k)
            o = capnpy.loads(wire.message(wire.St(bytes(data), [None] * T.pw)), view.cls(T))
            w = o.which()
            c.check(isinstance(w, BaseEnum) and int(w) & 0xffff == k and int(o.__which__()) & 0xffff == k, 'which() is %r for tag %d' % (w, k))
            if k in tags:
                c.eq(str(w), tags[k], 'str(which())')
                c.check(w == k and hash(w) == k and repr(w).endswith('.%s: %d>' % (tags[k], k)), 'repr of tag %d: %r' % (k, w))
                c.check(type(w) is view.cls(T).__tag__ and getattr(view.cls(T).__tag__, tags[k]) == w, 'members of the tag')
            else:
                c.check(str(w).startswith('unknown'), 'str(which()) is %s for the undeclared tag %d' % (w, k))
            for d, nm in tags.items():
                c.eq(getattr(o, 'is_' + nm)(), d == k, 'is_%s with tag %d' % (nm, k))
    ctx.explore('tag', tag, shard_depth=1)

    def constructed(c):
        d, nm = c.pick(sorted(tags.items()))
        f = [f for f in T.fields if f.disc == d][0]
        kw = {} if f.type.kind == 'void' else {nm: 7 if f.type.kind == 'int16' else b'x'}
        for o in (getattr(view.cls(T), 'new_' + nm)(a=1, **kw), view.cls(T)(a=1, **(kw or {nm: None}))):
            c.state(d)
            c.check(str(o.which()) == nm and o.which() == d and int(o.__which__()) == d, 'tag of new_%s: %r' % (nm, o.which()))
            got = S.from_wire(T, wire.decode_message(capnpy.dumps(o)))
            c.eq(got['__which__'], d, 'tag on the wire')
    ctx.explore('constructed', constructed)

    # ---- constants
    def consts(c):
        n = c.pick([n for n in S.nodes.values() if n.kind == 'const' and n.scope in dict(S.files)], 'const')
        v = getattr(mod, n.name)
        c.state(n.name)
        if n.type.kind == 'enum':
            is_value(c, v, S.nodes[n.type.id], n.value, n.name)
        else:
            for x, k in zip(v, S.untree(n.type, n.value)):
                is_value(c, x, S.nodes[n.type.elem.id], k, n.name)
    ctx.explore('consts', consts)

    # ---- the runtime helper
    def helper(c):
        k = c.choose(5)
        names = ['one', 'two', 'name', 'real'][:k]
        cls = enum('Helper', names)
        c.state(k)
        c.eq(cls.__name__, 'Helper', 'name')
        for i in list(range(6)) + [65535, -1]:
            v = cls(i)
            want = names[i] if 0 <= i < k else 'unknown<%d>' % i
            c.eq(str(v), want, 'str')
            c.eq(repr(v), '<Helper.%s: %d>' % (want, i), 'repr')
            c.check(v == i and hash(v) == hash(i), 'value')
        for i, nm in enumerate(names):
            c.check(getattr(cls, nm) == i and type(getattr(cls, nm)) is cls, 'member %s' % nm)
    ctx.explore('helper', helper)
    ctx.sample({'enum': 'Many', 'number': 257, 'name': names_of(S.byname['Many'])[257]})
