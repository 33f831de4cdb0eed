"""C08: exactly one union member is active, and every query agrees on which."""
import struct

from mc import wire, refschema
from mc.wire import St
from mc.explore import Skip, short
from mc.shapes import scalar_values
from mc.view import View, pyname
from mc.refschema import _u
from mc.checks.c01 import validate_with_capnp

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': '8 structs with anonymous, named, nested and sibling unions (26 kinds of member): every combination of the tags of all the unions of a struct '
             '(each declared tag, the first two undeclared, 0x7fff, 0x8000, 0xffff) x 4 contents of the shared sections x 3 ways to reach the object, with every '
             'query on every member; every member x every boundary value x every constructor form; every pair of members as conflicting arguments',
    'thorough': 'as quick with every tag 0-65535 for each single union and every pair of members in every order, position and form'}
ASSUMPTIONS = ['the tag and the members are where the official compiler puts them; constructed messages are decoded by `capnp convert`',
               'field names that clash with the methods of structs (e.g. a member called "which") are outside the model']
NAMES = ['All', 'First', 'Voids', 'Multi', 'Deep', 'Chain', 'Shadow']


def unions(S, n, path=()):
    """every union of a struct: [(path of the group, node)]"""
    out = []
    if n.nunion:
        out.append((path, n))
    for f in n.fields:
        if f.group is not None:
            out += unions(S, S.nodes[f.group], path + (f,))
    return out


def member_values(S, f):
    t = f.type
    if t.kind == 'text':
        return [b'', b'x', b'caf\xc3\xa9', None]
    if t.kind == 'data':
        return [b'', b'\0\xff', None]
    if t.kind == 'struct':
        return [{}, {'x': -1}, None]
    if t.kind == 'list':
        e = t.elem
        if e.kind == 'struct':
            return [[], [{'x': 1}, {}], None]
        if e.kind == 'text':
            return [[], [b'a', b'bb'], None]
        return [[], [1, 2, 3], None]
    return scalar_values(t, 3)


def run(ctx):
    import capnpy
    from capnpy.struct_ import undefined
    S = ctx.schema('unions')
    mod = ctx.load('unions')
    view = View(S, mod)
    th = ctx.thorough
    msgs = {}

    # ---- every query on every member must agree with the tag
    def queries(c, n, obj, st, path):
        """obj: the object or group of node n"""
        if n.nunion:
            tag = _u(st, n.tagoff * 16, 16)
            members = sorted([f for f in n.fields if f.disc != 0xffff], key=lambda f: f.disc)
            c.eq(int(obj.__which__()) & 0xffff, tag, '%s.__which__()' % path)
            w = obj.which()
            c.check(int(w) & 0xffff == tag and w == obj.__which__(), '%s.which() is %r, the tag is %d' % (path, w, tag))
            if tag < len(members):
                c.eq(str(w), pyname(members[tag].name), 'str(%s.which())' % path)
            else:
                c.check(str(w).startswith('unknown'), 'str(%s.which()) is %s for the undeclared tag %d' % (path, w, tag))
            true = [f.name for f in members if getattr(obj, 'is_' + pyname(f.name))()]
            c.eq(true, [members[tag].name] if tag < len(members) else [], '%s: members which say to be active (tag %d)' % (path, tag))
        for f in n.fields:
            py = pyname(f.name)
            p = '%s.%s' % (path, py)
            if f.disc != 0xffff and f.disc != tag:
                names = [py] + (['get_' + py] if f.group is None and f.type.is_ptr() else [])
                for nm in names:
                    try:
                        v = getattr(obj, nm)
                        if nm != py:
                            v = v()
                    except ValueError:
                        c.step()
                        continue
                    c.fail('%s.%s gave %s although the member is not active (tag %d)' % (path, nm, short(v), tag))
                if f.group is None and f.type.is_ptr():
                    c.eq(getattr(obj, 'has_' + py)(), False, '%s: has_%s of a member which is not active (tag %d)' % (path, py, tag))
                continue
            if f.group is not None:
                queries(c, S.nodes[f.group], getattr(obj, py), st, p)
            else:
                view._field(c, f, obj, py, st, p)

    # ---- reading every tag
    def tags_of(n):
        k = n.nunion
        return list(range(k)) + [k, k + 1, 0x7fff, 0x8000, 0xffff]

    def contents(n, kind):
        """data and pointers under the union: kind 0 zeros, 1 ones, 2 pattern, 3 shorter than the schema"""
        dw, pw = n.dw, n.pw
        if kind == 0:
            return bytearray(dw * 8), [None] * pw
        data = bytearray((0xff if kind == 1 else 0x25 + 7 * i & 0xff) for i in range(dw * 8))
        return data, [None] * pw

    def leaf_for(f, kind):
        """a pointer value which suits the (active) field"""
        vals = member_values(S, f)
        return S.tree(f.type, vals[0 if kind == 1 else 1])

    def fill_ptrs(n, st_data, ptrs, kind):
        """put something valid for the active members into the pointers, and something else where nothing is active"""
        tag = struct.unpack_from('<H', st_data, n.tagoff * 2)[0] if n.nunion else None
        for f in n.fields:
            if f.disc != 0xffff and f.disc != tag:
                continue
            if f.group is not None:
                fill_ptrs(S.nodes[f.group], st_data, ptrs, kind)
            elif f.type.is_ptr():
                ptrs[f.offset] = leaf_for(f, kind)

    def build_wire(n, us, tags, kind):
        data, ptrs = contents(n, kind)
        for (_, u), t in zip(us, tags):
            struct.pack_into('<H', data, u.tagoff * 2, t)
        # nested unions may share space with other members: keep only consistent choices
        for (_, u), t in zip(us, tags):
            if struct.unpack_from('<H', data, u.tagoff * 2)[0] != t:
                raise Skip()
        if kind:
            fill_ptrs(n, data, ptrs, kind)
            for i, p in enumerate(ptrs):
                if p is None and kind == 2:
                    ptrs[i] = wire.text(b'other')
        return St(bytes(data), ptrs)

    def reading(name):
        n = S.byname[name]
        us = unions(S, n)

        def fn(c):
            tags = [c.pick(tags_of(u) if len(us) < 3 else list(range(u.nunion)) + [u.nunion, 0xffff]) for _, u in us]
            kind = c.choose(3)
            how = c.choose(3)
            st = build_wire(n, us, tags, kind)
            c.state(name, tags, kind, how)
            c.note('%s tags=%s contents=%d' % (name, tags, kind))
            if how == 0:
                o = capnpy.loads(wire.message(st), view.cls(n))
            elif how == 1:
                # as an element of a list, between two others
                other = St(b'\xff' * n.dw * 8, [None] * n.pw)
                top = St(b'', [wire.Co(n.dw, n.pw, [other, st, other])])
                from capnpy.struct_ import Struct
                from capnpy.anypointer import AnyPointer
                s = capnpy.loads(wire.message(top), Struct)
                o = AnyPointer(s, 0).as_list(view.cls(n))[1]
            else:
                o = capnpy.loads(capnpy.dumps(capnpy.loads(wire.message(st), view.cls(n))), view.cls(n))
            queries(c, n, o, st, name)
        return fn
    for name in NAMES:
        ctx.explore('read/' + name, reading(name), shard_depth=1 if len(S.byname[name].fields) < 20 else 1)

    # ---- the tag is outside of the struct: shorter versions have tag 0
    def shorter(c):
        name = c.pick(NAMES)
        n = S.byname[name]
        dw, pw = c.choose(n.dw + 1), c.choose(n.pw + 1)
        st = refschema.resize(St(bytes(n.dw * 8), [None] * n.pw), dw, pw)
        c.state(name, dw, pw)
        o = capnpy.loads(wire.message(st), view.cls(n))
        queries(c, n, o, st, name)
    ctx.explore('shorter', shorter)

    if th:
        def alltags(c):
            name = c.pick(NAMES)
            n = S.byname[name]
            us = unions(S, n)
            i = c.choose(len(us))
            hi = c.choose(64)
            for t in range(hi * 1024, hi * 1024 + 1024):
                c.state(name, i, t)
                try:
                    st = build_wire(n, us, [t if j == i else 0 for j in range(len(us))], 0)
                except Skip:
                    continue
                queries(c, n, capnpy.loads(wire.message(st), view.cls(n)), st, name)
        ctx.explore('alltags', alltags, shard_depth=3)

    # ---- constructors
    def arg(n, f, v):
        """the Python argument for field f of node n (groups: positional tuple, undefined for the other members)"""
        if f.group is None:
            if v is None:
                return None
            t = f.type
            if t.kind == 'text' and f.name.endswith('U'):
                return v.decode('utf-8')
            if t.kind == 'struct':
                return view.cls(S.nodes[t.id])(**v)
            if t.kind == 'list' and t.elem.kind == 'struct':
                return [view.cls(S.nodes[t.elem.id])(**x) for x in v]
            return v
        g = S.nodes[f.group]
        out = []
        for x in params(g):
            if x.name in v:
                out.append(arg(g, x, v[x.name]))
            elif x.disc != 0xffff:
                out.append(undefined)
            elif x.group is not None:
                out.append(arg(g, x, {}))
            else:
                out.append(x.default)
        return tuple(out)

    def params(n):
        return [f for f in n.fields if f.group is not None or f.disc != 0xffff or f.type.kind != 'void']

    def leaves(n, path=()):
        out = []
        for f in n.fields:
            if f.group is not None:
                out += leaves(S.nodes[f.group], path + (f,))
            else:
                out.append((path, f))
        return out

    def nested(path, f, v):
        for x in reversed(path + (f,)):
            v = {x.name: v}
        return v

    def settle(c, n, o, want, what):
        wt = S.to_wire(n, want)
        queries(c, n, o, wt, what)
        buf = capnpy.dumps(o)
        got = wire.check_created(buf)
        c.check(wire.canon(got) == wire.canon(wt), '%s: wrote %r instead of %r' % (what, wire.canon(got), wire.canon(wt)))
        c.state(n.name, buf)
        if ctx.first() and n.dw + n.pw:
            msgs.setdefault(n.name, {}).setdefault(buf, wire.canon(wt))

    def build(n, value, form):
        """-> object, or None when the form cannot express it"""
        kw = {}
        member = None
        for f in params(n):
            if f.name in value:
                kw[pyname(f.name)] = arg(n, f, value[f.name])
                if f.disc != 0xffff:
                    member = f
            elif f.group is not None and f.disc == 0xffff and form != 'kw':
                pass
        cls = view.cls(n)
        if form == 'new':
            if member is None:
                return None
            if member.type.kind == 'void':
                kw.pop(pyname(member.name))
            return getattr(cls, 'new_' + pyname(member.name))(**kw)
        if form == 'groupctor':
            if len(value) != 1 or list(value)[0] not in n.byname:
                return None
            f = n.byname[list(value)[0]]
            if f.group is None:
                return None
            g = S.nodes[f.group]
            v = value[f.name]
            gkw = {pyname(x.name): arg(g, x, v[x.name]) for x in params(g) if x.name in v}
            return cls(**{pyname(f.name): getattr(cls, pyname(f.name).capitalize())(**gkw)})
        return cls(**kw)

    def constructing(name):
        n = S.byname[name]
        lv = leaves(n)

        def fn(c):
            path, f = c.pick(lv)
            v = c.pick(member_values(S, f))
            form = c.pick(['kw', 'new', 'groupctor'])
            value = nested(path, f, v)
            what = '%s(%s=%s) by %s' % (name, '.'.join(x.name for x in path + (f,)), short(v, 50), form)
            c.note(what)
            if f.type.kind == 'void' and f.disc == 0xffff:
                raise Skip()
            o = build(n, value, form)
            if o is None:
                raise Skip()
            settle(c, n, o, value, what)
            # together with the other fields of the struct
            more = {x.name: {'int32': 77, 'int16': 78, 'uint8': 79, 'text': b'more', 'bool': True}.get(x.type.kind, 80)
                    for x in n.fields if x.disc == 0xffff and x.group is None and x.type.kind != 'void' and x.name not in value}
            if more and form != 'groupctor':
                more.update(value)
                settle(c, n, build(n, more, form), more, what + ' with other fields')
        return fn
    for name in NAMES:
        ctx.explore('construct/' + name, constructing(name), shard_depth=1)

    # members of several unions at once
    def several(c):
        n = S.byname['Multi']
        value = {}
        for un in ('named1', 'named2', None):
            g = n if un is None else S.nodes[n.byname[un].group]
            ms = [f for f in g.fields if f.disc != 0xffff]
            i = c.choose(len(ms) + 1)
            if i == len(ms):
                continue
            v = c.pick(member_values(S, ms[i])[:2])
            if un is None:
                value[ms[i].name] = v
            else:
                value[un] = {ms[i].name: v}
        form = c.pick(['kw', 'new'])
        o = build(n, value, form)
        if o is None:
            raise Skip()
        settle(c, n, o, value, 'Multi(%s)' % short(value))
    ctx.explore('several', several)

    # new_x() without arguments selects x
    def bare(c):
        name = c.pick(NAMES)
        n = S.byname[name]
        ms = [f for f in n.fields if f.disc != 0xffff]
        if not ms:
            raise Skip()
        f = c.pick(ms)
        o = getattr(view.cls(n), 'new_' + pyname(f.name))()
        if f.group is not None:
            v = {}
        elif f.type.is_ptr() or f.type.kind == 'void':
            v = None
        else:
            v = f.default
        settle(c, n, o, {f.name: v}, '%s.new_%s()' % (name, f.name))
    ctx.explore('bare', bare)

    # nothing requested: the object still has exactly one member
    def default(c):
        n = S.byname[c.pick(NAMES)]
        o = view.cls(n)()
        settle(c, n, o, {}, n.name + '()')
    ctx.explore('default', default)

    # ---- conflicting members
    def conflicts(c):
        name = c.pick(NAMES)
        n = S.byname[name]
        us = unions(S, n)
        path, u = c.pick(us)
        ms = [f for f in u.fields if f.disc != 0xffff]
        i, j = c.choose(len(ms)), c.choose(len(ms))
        if i == j or (i > j and not th):
            raise Skip()
        vi = c.choose(2)
        a, b = ms[i], ms[j]

        def val(f):
            if f.group is not None:
                return {}
            vs = member_values(S, f)
            return vs[vi % len(vs)]
        value = {a.name: val(a), b.name: val(b)}
        for x in reversed(path):
            value = {x.name: value}
        what = '%s(%s)' % (name, short(value))
        c.note(what)
        c.state(what)
        forms = ['kw'] + (['groupctor'] if len(path) == 1 else [])
        for form in forms:
            try:
                o = build(n, value, form)
            except TypeError:
                c.step()
                continue
            c.fail('%s: two members of one union were accepted (%s): %s' % (what, form, short(o)))
        if not path:
            # new_a with the other member
            kw = {pyname(b.name): arg(n, b, val(b))}
            try:
                o = getattr(view.cls(n), 'new_' + pyname(a.name))(**kw)
            except TypeError:
                c.step()
            else:
                c.fail('%s.new_%s(%s) was accepted' % (name, a.name, kw))
    ctx.explore('conflicts', conflicts, shard_depth=2)

    # ---- structs without a union have no tag
    def none(c):
        cls = c.pick([view.cls('Leaf' and S.byname['Leaf']), view.cls(S.byname['Holder'])])
        o = cls()
        for q in ('which', '__which__'):
            try:
                v = getattr(o, q)()
            except TypeError:
                c.step()
            else:
                c.fail('%s() of a struct without union gave %r' % (q, v))
        c.state(cls.__name__)
    ctx.explore('none', none)

    if ctx.first() and not ctx.replay and not ctx.only:
        for name, m in sorted(msgs.items()):
            bufs = sorted(m)
            validate_with_capnp(ctx, name, bufs, [m[b] for b in bufs], 'unions')
