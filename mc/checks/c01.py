"""C01: every valid wire layout of a message reads as the same values."""
import os

from mc import wire, refschema
from mc.wire import St, Pl, Pp, Co, Cap
from mc.shapes import all_layout, pointer_values, scalar_values
from mc.view import View

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 3, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 4, 'pypy': 3, 'pyx': 1}}
BOUNDS = {
    'quick': 'wire trees of at most 4 allocations; every placement order, every assignment to <=2 segments, every '
             'near/single-far/double-far choice per pointer incl. the pad segment, 0/1-word gaps, pads before/after; up to 4 deviations '
             'for 4-5 allocations and 3 segments; all fields x boundary values, every single bit of the data section, '
             'every pair of (field, value) deviations of pointer fields',
    'thorough': 'as quick, with 3 segments everywhere, all pairs of data bits, 2-word gaps and all pairs of pointer values'}
ASSUMPTIONS = ['the reference reader of the wire format (mc/wire.py, mc/refschema.py) agrees with the official '
               'capnp tool; every layout family is cross-checked by piping its messages through `capnp convert`']


def shapes(S):
    """(name, type, tree, nseg, full)"""
    inner = S.to_wire('Inner', {'a': -7, 'b': b'hi', 'c': [1, -2, 300], 'd': 9})
    leaf = S.to_wire('Leaf', {'x': -1, 'y': 513})
    W = S.to_wire
    return [
        ('root', 'Leaf', leaf),
        ('emptyroot', 'Empty', St()),
        ('ptronly', 'PtrOnly', W('PtrOnly', {'p': {'x': 5, 'y': 6}, 'q': b'q'})),
        ('ptronly2', 'PtrOnly', W('PtrOnly', {'q': b'exactly 8'})),
        ('empties', 'LayE', W('LayE', {'empty': {}, 'n': 3})),
        ('composite', 'LayC', W('LayC', {'linner': [{'a': 1, 'b': b'one'}, {'a': 2}]})),
        ('compleaf', 'LayC', W('LayC', {'lleaf': [{'x': 1}, {'y': 2}], 'text': b't'})),
        ('lists', 'LayL', W('LayL', {'li32': [1, -2, 3], 'lbool': [True, False, True]})),
        ('nested', 'LayN', W('LayN', {'lli16': [[1, 2, 3, 4, 5], [6]]})),
        ('any', 'LayA', W('LayA', {'anyInner': W('Inner', {'a': 4, 'd': 1}), 'anyText': wire.text(b'anyt')})),
        ('anyl', 'LayA', W('LayA', {'anyList': Pl(3, 2, b'\1\0\2\0')})),
        ('lempty', 'LayE', W('LayE', {'lempty': [{}, {}], 'n': 5})),
        ('lvoid', 'LayL', W('LayL', {'lvoid': [None] * 3, 'lbool': []})),
        ('emptylist', 'LayN', W('LayN', {'lli16': [], 'llinner': []})),
    ]


def big_shapes(S):
    W = S.to_wire
    return [
        ('one', 'One', W('One', {'v': 258, 'p': {'a': -7, 'b': b'hi', 'c': [1, -2, 300]}})),
        ('two', 'Two', W('Two', {'v': 7, 't': b'text', 'q': {'s': b'sss', 'd': b'\0\1'}})),
        ('tree', 'Tree', W('Tree', {'val': 1, 'name': b'n', 'left': {'val': 2, 'right': {'val': 3}},
                                    'kids': [{'val': 4}, {'val': 5, 'name': b'five'}]})),
        ('lnames', 'LayN', W('LayN', {'lnames': [{'s': b'a', 'd': b'b'}, {'s': b'c'}], 'leaf': {'x': 3}})),
        ('lltext', 'LayN', W('LayN', {'lltext': [[b'a', b'bb'], []]})),
        ('llinner', 'LayN', W('LayN', {'llinner': [[{'b': b'x'}], [{}, {'a': 1}]]})),
        ('un', 'Un', W('Un', {'leaf': {'x': 1}, 'tail': b'tl', 'named': {'four': {'b': b'4'}}})),
        ('grp', 'Grp', W('Grp', {'g': {'name': b'nm', 'inner': {'y': 2}, 'h': {'l': [1, 2]}}, 'after': b'z'})),
    ]


ANY = {'anyInner': ('struct', 'Inner'), 'anyText': ('text', None), 'anyList': ('list', 'int16')}


def run(ctx):
    import capnpy
    S = ctx.schema('zoo')
    mod = ctx.load('zoo')
    view = View(S, mod, ANY)
    th = ctx.thorough
    validate = {}

    def read(c, tname, tree, segs, via=0):
        buf = wire.frame(segs)
        n = S.byname[tname]
        obj = capnpy.loads(buf, view.cls(n))
        c.state(tname, buf)
        view.check_struct(c, n, obj, tree, tname)
        return buf

    def layout_scenario(name, tname, tree, nseg, dev, gaps, maxdev, depth):
        def fn(c):
            plan = all_layout(c, tree, nseg=nseg, gaps=gaps, dev=dev)
            segs = wire.encode(tree, plan)
            if ctx.first():
                validate.setdefault(tname, {}).setdefault(wire.frame(segs), wire.canon(tree))
            read(c, tname, tree, segs)
        ctx.explore(name, fn, max_dev=maxdev, shard_depth=depth)

    for name, tname, tree in shapes(S):
        n = len(wire.units_of(tree))
        layout_scenario('layout2/' + name, tname, tree, 2, False, (0, 1) if n < 3 or th else (0,), 0, min(n, 3))
        if not ctx.pyx or th:
            layout_scenario('layout3/' + name, tname, tree, 3, n >= 3 and not th, (0, 1, 2) if th else (0, 1), 5 if th else 3, min(n, 3))
    for name, tname, tree in big_shapes(S):
        layout_scenario('layoutdev/' + name, tname, tree, 3, True, (0, 1, 2), 4 if th else 2, 3)
    # the padding of primitive lists is not part of the content
    for name, tname, tree in shapes(S):
        def fn(c):
            plan = wire.Plan(padbits=c.pick([0, 0xff, 0x5a]), fill=0xee, extra={0: c.pick([0, 1, 3])},
                             gap={0: c.pick([0, 2])}, slack=c.pick([0, 1, 3]))
            read(c, tname, tree, wire.encode(tree, plan))
        ctx.explore('padding/' + name, fn)

    # ---- values: data section
    for tname in ('Prims', 'Un', 'Grp', 'Leaf', 'Inner'):
        n = S.byname[tname]

        def base_tree(data):
            return St(bytes(data), [None] * n.pw)

        def patterns(c):
            kind = c.pick(['fill', 'walk1', 'walk0', 'walkbyte'])
            data = bytearray(n.dw * 8)
            if kind == 'fill':
                b = c.pick(list(range(256)) if tname != 'Prims' or th else [0, 255, 0xaa, 0x55, 1, 0x80, 0x7f, 0xfe])
                data = bytearray([b]) * len(data)
            elif kind == 'walkbyte':
                data[c.choose(len(data))] = c.pick([0x7f, 0x80, 0xff, 0x81])
            else:
                i = c.choose(n.dw * 64)
                if kind == 'walk0':
                    data = bytearray(b'\xff') * len(data)
                data[i // 8] ^= 1 << (i % 8)
            if n.nunion:
                tag = c.pick(list(range(n.nunion)))
                data[n.tagoff * 2:n.tagoff * 2 + 2] = bytes(bytearray([tag, 0]))
            for f in n.fields:       # named unions: keep a valid tag
                if f.group is not None:
                    g = S.nodes[f.group]
                    if g.nunion:
                        data[g.tagoff * 2:g.tagoff * 2 + 2] = b'\1\0'
            if tname == 'Un' and tag == 6:
                # a valid enumerant
                f = n.byname['col']
                data[f.offset * 2:f.offset * 2 + 2] = bytes(bytearray([data[f.offset * 2] % 4, 0]))
            if tname == 'Prims':
                for nm in ('color', 'dcolor'):
                    f = n.byname[nm]
                    data[f.offset * 2:f.offset * 2 + 2] = bytes(bytearray([data[f.offset * 2] & 3, 0]))
            t = base_tree(data)
            read(c, tname, t, wire.encode(t))
        ctx.explore('data/' + tname, patterns, shard_depth=2)

        if th and tname in ('Inner', 'Leaf', 'Prims'):
            def pairs(c):
                i = c.choose(n.dw * 64)
                j = c.choose(n.dw * 64)
                if j >= i:
                    from mc.explore import Skip
                    raise Skip()
                data = bytearray(n.dw * 8)
                data[i // 8] ^= 1 << (i % 8)
                data[j // 8] ^= 1 << (j % 8)
                for nm in ('color', 'dcolor'):
                    if nm in n.byname:
                        f = n.byname[nm]
                        data[f.offset * 2:f.offset * 2 + 2] = bytes(bytearray([data[f.offset * 2] & 3, 0]))
                t = base_tree(data)
                read(c, tname, t, wire.encode(t))
            ctx.explore('databits2/' + tname, pairs, shard_depth=1)

        def fields(c):
            fs = [f for f in n.fields if f.group is None and f.disc == 0xffff and not f.type.is_ptr() and f.type.kind != 'void']
            f = c.pick(fs)
            v = c.pick(scalar_values(f.type, 3))
            g = c.pick(fs)
            w = c.pick(scalar_values(g.type, 3)[:2])
            t = S.to_wire(n, {g.name: w, f.name: v})
            read(c, tname, t, wire.encode(t))
        if tname != 'Un':
            ctx.explore('fields/' + tname, fields, shard_depth=2)

    # ---- values: pointer section
    n = S.byname['Ptrs']
    pf = [f for f in n.fields if f.type.is_ptr()]

    def pointers(c):
        f = c.pick(pf)
        v = c.pick(pointer_values(S, f.type))
        t = S.to_wire(n, {f.name: v, 'n': -2})
        # one far hop in between as well
        lay = c.choose(3)
        plan = wire.Plan() if lay == 0 else wire.Plan(seg={i: 1 for i in range(1, 60)}) if lay == 1 else \
            wire.Plan(far={i: ('double', 1) for i in range(1, len(wire.units_of(t)))}, nseg=2)
        if lay and len(wire.units_of(t)) < 2:
            return
        buf = read(c, 'Ptrs', t, wire.encode(t, plan))
        if ctx.first():
            validate.setdefault('Ptrs', {}).setdefault(buf, wire.canon(t))
    ctx.explore('pointers', pointers, shard_depth=2)

    def pointers2(c):
        i = c.choose(len(pf))
        f = pf[i]
        g = pf[c.choose(len(pf))]
        if f is g:
            return
        k = 6 if th else 3
        v = c.pick(pointer_values(S, f.type)[:k])
        w = c.pick(pointer_values(S, g.type)[1:k])
        t = S.to_wire(n, {f.name: v, g.name: w})
        read(c, 'Ptrs', t, wire.encode(t))
    ctx.explore('pointers2', pointers2, shard_depth=2)

    # two pointers to the same object
    def shared(c):
        tname, src, dst = c.pick([('LayA', 'inner', 'anyInner'), ('Ptrs', 'text', 'textU'), ('Ptrs', 'text', 'data')])
        t = S.to_wire(tname, {'inner': {'a': 3, 'b': b'sh'}, 'n': 3} if tname == 'LayA' else {'inner': {'a': 3, 'b': b'sh'}, 'text': b'tt'})
        segs, pos, units = wire.layout(t)
        b = bytearray(segs[0])
        n = S.byname[tname]
        # re-point dst at src's target
        a, z = n.byname[src].offset, n.byname[dst].offset
        base = 1 + n.dw
        p = wire.struct.unpack_from('<Q', b, (base + a) * 8)[0]
        off = (p >> 2) & 0x3fffffff
        off += a - z
        p = (p & ~0xfffffffc) | ((off & 0x3fffffff) << 2)
        wire.struct.pack_into('<Q', b, (base + z) * 8, p)
        ch = list(t.ptrs)
        ch[z] = ch[a]
        t2 = St(t.data, ch)
        assert wire.canon(wire.decode([bytes(b)])) == wire.canon(t2)
        read(c, tname, t2, [bytes(b)])
    ctx.explore('shared', shared)

    # ---- the reference model against the official tool
    if ctx.first() and not ctx.replay and not ctx.only:
        for tname, msgs in sorted(validate.items()):
            step = max(1, len(msgs) // (4000 if not th else 40000))
            bufs = sorted(msgs)[::step]
            validate_with_capnp(ctx, tname, bufs, [msgs[b] for b in bufs])
    ctx.sample('executions by scenario: %r' % (dict(list(ctx.ex.scenarios.items())[:3]),))


def validate_with_capnp(ctx, tname, bufs, canons, schema='zoo'):
    """the official tool must read every generated layout as the same content"""
    for i in range(0, len(bufs), 500):
        part = bufs[i:i + 500]
        rc, out, err = refschema.capnp_convert('binary:binary', part, ctx.schema_file(schema), tname, [ctx.ws])
        assert rc == 0, err[-500:]
        pos = 0
        for j in range(len(part)):
            segs, pos = wire.unframe(out, pos)
            got = wire.canon(wire.decode(segs))
            assert got == canons[i + j], 'the model disagrees with the capnp tool on %r: %r != %r' % (part[j], got, canons[i + j])
            ctx.count('messages_cross_checked_with_capnp_tool')
        assert pos == len(out)
