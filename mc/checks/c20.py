"""C20: untyped pointers classify and cast their target correctly."""
from mc import wire
from mc.wire import St, Pl, Pp, Co, Cap, Plan
from mc.explore import Skip, short
from mc.shapes import pointer_values, all_layout
from mc.view import View

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': '31 types of target (structs, every kind of list, text, data) x every value of the alphabet x 4 positions of the untyped field (flat, group, named '
             'union, anonymous union) x 8 layouts; every 2-segment layout (segments, near/far/double-far, order, gaps) of 14 targets; null, absent and '
             'inactive fields; capabilities; plain structs without a schema',
    'thorough': 'as quick with 3 segments and every layout for every position'}
ASSUMPTIONS = ['casting to a type other than the stored one is outside the property (malformed use), except that it must agree between text and List(UInt8)-like targets']


def run(ctx):
    import capnpy
    from capnpy.anypointer import AnyPointer
    from capnpy.struct_ import Struct
    from capnpy.type import Types
    from capnpy.list import (ItemType, PrimitiveItemType, TextItemType, StructItemType, EnumItemType, ListItemType, VoidItemType, BoolItemType, TextUnicodeItemType)
    S = ctx.schema('anyp')
    mod = ctx.load('anyp')
    view = View(S, mod)
    th = ctx.thorough
    A, T = S.byname['Anys'], S.byname['Typed']
    G, U = S.nodes[A.byname['g'].group], S.nodes[A.byname['un'].group]

    POS = ['any', 'g.any', 'un.any', 'alt']

    def top(x, pos, rec=False):
        v = {'n': -3, 'first': b'first', 'last': b'last', 'g': {'m': 77}}
        st = S.to_wire(A, dict(v, **({'alt': None} if pos == 'alt' else {'un': {'any': None}} if pos == 'un.any' else {})))
        off = {'any': A.byname['any'], 'g.any': G.byname['any'], 'un.any': U.byname['any'], 'alt': A.byname['alt']}[pos].offset
        st.ptrs[off] = x
        return st

    def get(o, pos):
        for p in pos.split('.'):
            o = getattr(o, p)
        return o

    def has(o, pos):
        ps = pos.split('.')
        for p in ps[:-1]:
            o = getattr(o, p)
        return getattr(o, 'has_' + ps[-1])()

    def item_types(e, uni):
        """every way to name the type of the items"""
        if e.kind == 'struct':
            cls = view.cls(S.nodes[e.id])
            return [cls, StructItemType(cls)]
        if e.kind == 'enum':
            cls = view.cls(S.nodes[e.id])
            return [cls, EnumItemType(cls)]
        if e.kind == 'text':
            return [str if uni else bytes, TextUnicodeItemType(Types.text) if uni else TextItemType(Types.text)]
        if e.kind == 'data':
            return [Types.data, TextItemType(Types.data)]
        if e.kind == 'list':
            return [[x] for x in item_types(e.elem, uni) if not isinstance(x, ItemType)] + [ListItemType(x) for x in item_types(e.elem, uni) if isinstance(x, ItemType)]
        if e.kind == 'void':
            return [Types.void, VoidItemType()]
        if e.kind == 'bool':
            return [Types.bool, BoolItemType()]
        t = getattr(Types, e.kind)
        return [t, PrimitiveItemType(t)] + {'int64': [int], 'float64': [float]}.get(e.kind, [])

    def kind(x):
        """is_struct, is_list, is_text, is_data"""
        if isinstance(x, St):
            return True, False, False, False
        if isinstance(x, Cap):
            return False, False, False, False
        text = isinstance(x, Pl) and x.tag == 2
        return False, True, text, text

    def examine(c, f, any_, x, what):
        """the untyped pointer refers to x, a value of the type of f"""
        c.check(any_ is not None, what + ' is None')
        c.eq((any_.is_struct(), any_.is_list(), any_.is_text(), any_.is_data()), kind(x), what + ': kind')
        t = f.type
        uni = f.name.endswith('U')
        if t.kind == 'struct':
            n = S.nodes[t.id]
            cls = view.cls(n)
            o = any_.as_struct(cls)
            c.check(type(o) is cls, what + ': type')
            view.check_struct(c, n, o, x, what)
            raw = any_.as_struct(Struct)
            for out, how in ((any_.dumps(), 'dumps()'), (o.dumps(), 'as_struct().dumps()'), (raw.dumps(), 'as_struct(Struct).dumps()'),
                             (raw.compact().dumps(), 'compact()')):
                got = wire.check_created(out)
                c.check(wire.canon(got) == wire.canon(x), '%s: %s gave %s instead of %s' % (what, how, short(wire.canon(got)), short(wire.canon(x))))
        elif t.kind == 'list':
            for it in item_types(t.elem, uni):
                view.check_list(c, t.elem, any_.as_list(it), x, '%s.as_list(%s)' % (what, it), uni)
        elif t.kind == 'text':
            c.eq(any_.as_text_bytes(), x.raw[:-1], what + '.as_text_bytes()')
            c.eq(any_.as_text_unicode(), x.raw[:-1].decode('utf-8'), what + '.as_text_unicode()')
            try:
                any_.as_text()
            except Exception as e:
                c.check('as_text_bytes' in str(e), what + '.as_text()')
            else:
                c.fail(what + '.as_text() is ambiguous and must be refused')
        else:
            c.eq(any_.as_data(), x.raw, what + '.as_data()')
        # asking again gives the same answers
        c.eq((any_.is_struct(), any_.is_list(), any_.is_text(), any_.is_data()), kind(x), what + ': kind, asked again')

    def plans(tree):
        k = len(wire.units_of(tree))
        r = range(k)
        return [Plan(), Plan(seg={i: 1 for i in r if i}, nseg=2), Plan(seg={0: 1}, nseg=2), Plan(far={i: 'single' for i in r if i}, nseg=2),
                Plan(far={i: ('double', 1) for i in r if i}, nseg=2), Plan(seg={i: i % 3 for i in r}, far={i: ('double', 2) for i in r if i % 2}, nseg=3),
                Plan(order=list(r)[::-1], gap={0: 1}), Plan(padbits=0xff, fill=0xee, slack=1)]
    names = [f for f in T.fields]

    def values(c):
        f = c.pick(names)
        v = c.pick([x for x in pointer_values(S, f.type, (0, 1, 2, 5, 9)) if x is not None])
        pos = c.pick(POS)
        x = S.tree(f.type, v)
        st = top(x, pos)
        c.note('%s %s at %s' % (f.name, short(v, 60), pos))
        ps = plans(st)
        if not th and len(names) and pos != 'any':
            ps = ps[1:6:2]
        for i, plan in enumerate(ps):
            try:
                segs = wire.encode(st, plan)
            except wire.Unrepresentable:
                continue
            buf = wire.frame(segs)
            c.state(buf)
            o = capnpy.loads(buf, mod.Anys)
            what = '%s at %s, layout %d' % (f.name, pos, i)
            c.eq(has(o, pos), True, what + ': has_')
            examine(c, f, get(o, pos), x, what)
            c.eq((o.n, o.first, o.last, o.g.m), (-3, b'first', b'last', 77), what + ': the other fields')
    ctx.explore('values', values, shard_depth=2)

    SMALL = [('leaf', {'x': -1}), ('empty', {}), ('inner', {'a': 1, 'b': b'in', 'c': [1, 2]}), ('li16', [1, -2, 3]), ('lbool', [True, False, True]), ('lvoid', [None] * 3),
             ('li8', []), ('ltext', [b'a', None, b'cc']), ('lleaf', [{'x': 1}, {'y': 2}]), ('lempty', [{}, {}]), ('lli16', [[1], None, []]), ('text', b'text'), ('text', b''), ('data', b'\0\xff')]

    def layouts(c):
        name, v = c.pick(SMALL)
        f = T.byname[name]
        x = S.tree(f.type, v)
        pos = c.pick(POS if th else ['any', 'un.any'])
        st = top(x, pos)
        # only the target and what it contains is moved around
        st.ptrs[A.byname['first'].offset] = None
        st.ptrs[A.byname['last'].offset] = None
        k = len(wire.units_of(st))
        plan = all_layout(c, st, nseg=3 if th else 2, gaps=(0, 1), dev=k > 2, far_same=True)
        buf = wire.frame(wire.encode(st, plan))
        c.state(buf)
        o = capnpy.loads(buf, mod.Anys)
        c.eq(has(o, pos), True, 'has_')
        examine(c, f, get(o, pos), x, '%s at %s' % (name, pos))
    ctx.explore('layouts', layouts, max_dev=3 if th else 2, shard_depth=4)

    # ---- in objects which were copied
    def copies(c):
        name, v = c.pick(SMALL)
        f = T.byname[name]
        pos = c.pick(POS)
        x = S.tree(f.type, v)
        st = top(x, pos)
        how = c.choose(4)
        o = capnpy.loads(wire.message(st, c.pick(plans(st)[:6])), mod.Anys)
        if how == 0:
            o = capnpy.loads(capnpy.dumps(o), mod.Anys)
        elif how == 1:
            o = o.compact()
        elif how == 2:
            o = capnpy.loads(o.dumps(fastpath=False), mod.Anys)
        else:
            outer = St(b'\0' * A.dw * 8, [None] * A.pw)
            outer.ptrs[A.byname['rec'].offset] = st
            o = capnpy.loads(wire.message(outer), mod.Anys).rec
        c.state(name, pos, how)
        examine(c, f, get(o, pos), x, '%s at %s after a copy' % (name, pos))
    ctx.explore('copies', copies, shard_depth=1)

    # ---- nothing there
    def nothing(c):
        pos = c.pick(POS)
        cut = c.choose(A.pw + 1)
        st = top(None, pos)
        st = St(st.data, st.ptrs[:cut])
        o = capnpy.loads(wire.message(st), mod.Anys)
        c.state(pos, cut)
        c.eq(get(o, pos), None, '%s with %d pointers' % (pos, cut))
        c.eq(has(o, pos), False, 'has %s with %d pointers' % (pos, cut))
        # an inactive member
        st = top(wire.text(b'x'), 'any')
        for p in ('un.any', 'alt'):
            o = capnpy.loads(wire.message(st), mod.Anys)
            try:
                get(o, p)
            except ValueError:
                c.step()
            else:
                c.fail('%s is not active, but was read' % p)
            c.eq(has(o, p), False, 'has %s' % p)
    ctx.explore('nothing', nothing)

    def capability(c):
        st = top(Cap(c.pick([0, 1, 2 ** 32 - 1])), 'any')
        o = capnpy.loads(wire.message(st, c.pick([Plan(), Plan(gap={0: 1})])), mod.Anys)
        a = o.any
        c.eq(o.has_any(), True, 'has_any() of a capability')
        c.eq((a.is_struct(), a.is_list(), a.is_text(), a.is_data()), (False, False, False, False), 'kind of a capability')
        c.state('cap')
        for q in (a.as_data, a.as_text_bytes, a.as_text_unicode, a.dumps, lambda: a.as_struct(mod.Leaf), lambda: a.as_list(int)):
            try:
                v = q()
            except Exception:
                c.step()
            else:
                c.fail('a capability was read as %s' % short(v))
    ctx.explore('capability', capability)

    # ---- an untyped pointer over every pointer of a struct without schema
    def generic(c):
        name, v = c.pick(SMALL)
        f = T.byname[name]
        x = S.tree(f.type, v)
        npt = c.choose(3) + 1
        at = c.choose(npt)
        dw = c.choose(3)
        ptrs = [wire.text(b'p%d' % i) for i in range(npt)]
        ptrs[at] = x
        st = St(b'\xff' * dw * 8, ptrs)
        for plan in plans(st)[:6]:
            try:
                segs = wire.encode(st, plan)
            except wire.Unrepresentable:
                continue
            o = capnpy.loads(wire.frame(segs), Struct)
            c.state(wire.frame(segs))
            for i in range(npt):
                a = AnyPointer(o, i * 8)
                if i == at:
                    examine(c, f, a, x, '%s at pointer %d' % (name, i))
                else:
                    c.eq(a.as_text_bytes(), b'p%d' % i, 'pointer %d' % i)
            null = AnyPointer(o, npt * 8)
            c.eq((null.as_data(), null.as_text_bytes(), null.as_text_unicode(), null.as_struct(mod.Leaf), null.as_list(int)), (None,) * 5, 'a pointer beyond the struct')
    ctx.explore('generic', generic, shard_depth=1)

    def itemtypes(c):
        f = c.pick([f for f in names if f.type.kind == 'list'])
        e = f.type.elem
        uni = f.name.endswith('U')
        its = item_types(e, uni)
        made = [t if isinstance(t, ItemType) else ItemType.from_type(t) for t in its]
        for a in made:
            c.check(type(a) is type(made[0]), '%s: from_type gives %s' % (f.name, [type(m).__name__ for m in made]))
        c.state(f.name)
    ctx.explore('itemtypes', itemtypes)
