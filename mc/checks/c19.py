"""C19: pickling, copying and raw dumps restore an equivalent object."""
import copy
import gc
import io
import pickle
import sys

from mc import wire
from mc.wire import St, Plan, Pl, Co
from mc.explore import Skip
from mc.shapes import all_layout, pointer_values
from mc.view import View, walk
from mc.checks.c01 import shapes, big_shapes, ANY

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': '27 message shapes x 2 segments: every assignment of objects to segments, kind of pointer and gap (small shapes exhaustively, larger ones up to 2 deviations), '
             'with every object reachable in the message (roots, fields, groups, list items) x 8 ways to restore it (pickle protocols 0-5, deepcopy, raw dump); '
             'every sequence of two out of 9 ways on every object; several objects of one message in one pickle; every kind of pointer value; roots, fields and list items of every size from 0 to 2 words beyond the schema',
    'thorough': 'as quick with 3 segments, 4 deviations and sequences of three'}
ASSUMPTIONS = ['capnpy lists refuse to be pickled (documented); the struct which contains them is pickled instead',
               'the module of the types is importable under its own name, as pickle requires']


def ways(protocols):
    out = []
    for p in protocols:
        out.append(('pickle%d' % p, lambda o, p=p: pickle.loads(pickle.dumps(o, p))))
    out.append(('pypickle', lambda o: pickle._loads(pickle._dumps(o, 2))))
    out.append(('copy', copy.copy))
    out.append(('deepcopy', copy.deepcopy))
    out.append(('raw', lambda o: type(o)._raw_loads(o._raw_dumps())))
    return out


def run(ctx):
    import capnpy
    S = ctx.schema('zoo')
    mod = ctx.load('zoo')
    sys.modules[mod.__name__] = mod
    view = View(S, mod, ANY)
    th = ctx.thorough
    ALL = ways(range(pickle.HIGHEST_PROTOCOL + 1))
    FEW = [w for w in ALL if w[0] in ('pickle0', 'pickle2', 'pickle%d' % pickle.HIGHEST_PROTOCOL, 'raw', 'copy')]

    def same(c, path, m, o, t, what, full=True):
        view.check_struct(c, m, o, t, what)
        if full and not m.is_group:
            try:
                got = wire.decode_message(o.dumps())
            except Exception as e:
                c.fail('%s: dumps() of the restored object: %s: %s' % (what, type(e).__name__, e))
            c.check(wire.canon(got) == wire.canon(t), '%s: the restored object is dumped as %r instead of %r' % (what, wire.canon(got), wire.canon(t)))

    def objects(segs, tname, tree):
        root = capnpy.loads(wire.frame(segs), view.cls(S.byname[tname]))
        return walk(view, tname, root, tree, tname, groups=True)

    def restore(c, tname, tree, segs, which):
        for path, m, o, t in objects(segs, tname, tree):
            for name, fn in which:
                o2 = fn(o)
                what = '%s of %s' % (name, path)
                c.check(type(o2) is type(o), '%s gave a %s instead of a %s' % (what, type(o2), type(o)))
                same(c, path, m, o2, t, what)
            c.state(tname, path, wire.frame(segs))

    for name, tname, tree in shapes(S):
        k = len(wire.units_of(tree))

        def fn(c):
            plan = all_layout(c, tree, nseg=3 if th else 2, gaps=(0, 1), dev=k >= 3, far_same=k < 3 or th)
            restore(c, tname, tree, wire.encode(tree, plan), FEW)
        ctx.explore('layout/' + name, fn, max_dev=4 if th else 2, shard_depth=min(k, 3))
    for name, tname, tree in big_shapes(S):
        def fn(c):
            plan = all_layout(c, tree, nseg=3 if th else 2, gaps=(0, 1), dev=True, far_same=True)
            restore(c, tname, tree, wire.encode(tree, plan), FEW)
        ctx.explore('layoutdev/' + name, fn, max_dev=2 if th else 1, shard_depth=3)

    def layouts(tree):
        k = len(wire.units_of(tree))
        return [Plan(), Plan(seg={i: i % 2 for i in range(k)}, nseg=2), Plan(seg={i: 1 for i in range(k)}, far={i: ('double', 2) for i in range(k)}, nseg=3),
                Plan(order=list(range(k))[::-1], gap={0: 2})]

    # ---- all the ways, in sequence
    both = [(n, t, x) for n, t, x in list(shapes(S)) + list(big_shapes(S))]

    def sequences(c):
        name, tname, tree = c.pick(both)
        plan = c.pick(layouts(tree))
        segs = wire.encode(tree, plan)
        objs = objects(segs, tname, tree)
        path, m, o, t = objs[c.choose(len(objs))]
        a = c.choose(len(ALL))
        steps = [ALL[a]]
        o = ALL[a][1](o)
        del objs
        # the rest of the sequence; the previous objects are gone
        for b in range(len(ALL)):
            x = ALL[b][1](o)
            what = '%s, %s of %s' % (ALL[a][0], ALL[b][0], path)
            c.check(type(x) is view.cls(m) if not m.is_group else True, '%s gave a %s' % (what, type(x)))
            c.step()
            if th:
                for d in range(len(ALL)):
                    same(c, path, m, ALL[d][1](x), t, what + ', ' + ALL[d][0], full=False)
            same(c, path, m, x, t, what)
            c.state(path, a, b, wire.frame(segs))
        same(c, path, m, o, t, '%s of %s, after copying it' % (ALL[a][0], path))
    ctx.explore('sequences', sequences, shard_depth=2)

    # ---- several objects of a message in one pickle
    def together(c):
        name, tname, tree = c.pick(both)
        segs = wire.encode(tree, c.pick(layouts(tree)))
        objs = objects(segs, tname, tree)
        proto = c.choose(pickle.HIGHEST_PROTOCOL + 1)
        i = c.choose(len(objs))
        group = [objs[i][2], objs[0][2], objs[-1][2], {'k': objs[i][2]}, objs[i][2]]
        got = pickle.loads(pickle.dumps(group, proto))
        del group
        for k, (path, m, _, t) in enumerate([objs[i], objs[0], objs[-1]]):
            same(c, path, m, got[k], t, '%s pickled with others' % path)
        same(c, objs[i][0], objs[i][1], got[3]['k'], objs[i][3], '%s pickled twice' % objs[i][0])
        c.check(got[4] is got[0], 'the same object pickled twice gave two objects')
        c.state(name, i, proto)
    ctx.explore('together', together, shard_depth=1)

    # ---- every kind of pointer value; objects which were built, and parts of them
    pn = S.byname['Ptrs']

    def pointers(c):
        f = c.pick([f for f in pn.fields if f.type.is_ptr()])
        v = c.pick(pointer_values(S, f.type)[:8])
        t = S.to_wire(pn, {f.name: v, 'n': -2})
        segs = wire.encode(t, c.pick(layouts(t)))
        restore(c, 'Ptrs', t, segs, FEW)
    ctx.explore('pointers', pointers, shard_depth=2)

    def built(c):
        values = [('Inner', dict(a=-1, b=b'bb', c=[1, 2])), ('Tree', dict(val=3, name=b'n')), ('Leaf', dict(x=5, y=6)), ('Empty', {}), ('Names', dict(s=b's', d=b'd'))]
        tname, kw = c.pick(values)
        n = S.byname[tname]
        o = view.cls(n)(**kw)
        t = S.to_wire(n, kw)
        nest = c.choose(3)
        if nest and tname == 'Inner':
            o = [mod.One(v=1, p=o).p, mod.LayC(linner=[o, o]).linner[1]][nest - 1]
        w = c.pick(ALL)
        same(c, tname, n, w[1](w[1](o)), t, '%s twice of %s()' % (w[0], tname))
        c.state(tname, nest, w[0])
        gc.collect()
    ctx.explore('built', built)

    # ---- objects written with another version of the schema
    def sized(c):
        dw, pw = c.choose(4), c.choose(5)
        data = bytes(bytearray((17 * i + 1) % 250 + 1 for i in range(dw * 8)))
        inner = St(data, [wire.text(b'txt'), Pl(3, 2, b'\5\0\6\0'), St(b'\7' * 8, [wire.text(b'unk')]), wire.data(b'more unknown')][:pw])
        where = c.pick(['root', 'field', 'item'])
        if where == 'root':
            tname, t = 'Inner', inner
        elif where == 'field':
            tname, t = 'One', St(b'\1\2' + b'\0' * 6 + b'\xaa' * 8 * c.choose(2), [inner])
        else:
            tname, t = 'LayC', St(b'', [Co(dw, pw, [inner, St(b'\0' * dw * 8, [None] * pw), inner]), None, wire.text(b'after')])
        segs = wire.encode(t, c.pick([Plan(), Plan(seg={i: 1 for i in range(1, 30)}), Plan(order=list(range(len(wire.units_of(t))))[::-1])]))
        restore(c, tname, t, segs, ALL if th else FEW + [w for w in ALL if w[0] == 'deepcopy'])
        w = c.pick(FEW)
        root = capnpy.loads(wire.frame(segs), view.cls(S.byname[tname]))
        same(c, tname, S.byname[tname], w[1](w[1](root)), t, '%s twice' % w[0])
    ctx.explore('sized', sized, shard_depth=2)

    # ---- untyped pointers and plain structs
    def untyped(c):
        from capnpy.struct_ import Struct
        t = S.to_wire('LayA', {'inner': {'a': 3, 'b': b'sh'}, 'n': 3})
        t.ptrs[0] = S.to_wire('Inner', {'a': 9, 'b': b'any'})
        t.ptrs[1] = wire.text(b'atext')
        segs = wire.encode(t, c.pick(layouts(t)))
        w = c.pick(ALL)
        root = capnpy.loads(wire.frame(segs), Struct)
        o = w[1](root)
        c.check(type(o) is Struct, 'type')
        c.check(wire.canon(wire.decode_message(o.dumps())) == wire.canon(t), '%s of a Struct' % w[0])
        root = capnpy.loads(wire.frame(segs), mod.LayA)
        if w[0] != 'raw':
            a = w[1](root.any_inner)
            same(c, 'anyInner', S.byname['Inner'], a.as_struct(mod.Inner), t.ptrs[0], '%s of an untyped pointer' % w[0])
            a = w[1](root.any_text)
            c.eq(a.as_text_bytes(), b'atext', '%s of an untyped text' % w[0])
            c.eq((a.is_text(), a.is_list(), a.is_struct()), (True, True, False), 'kind of an untyped text')
        c.state('untyped', wire.frame(segs), w[0])
    ctx.explore('untyped', untyped)

    # ---- lists refuse
    def lists(c):
        o = mod.Ptrs(li32=[1, 2], linner=[mod.Inner(a=1)], ltext=[b'x'])
        lst = c.pick([o.li32, o.linner, o.ltext])
        w = c.pick([x for x in ALL if x[0] != 'raw'])
        try:
            got = w[1](lst)
        except TypeError:
            c.step()
        else:
            c.check(got is lst or list(got) == list(lst), '%s of a list gave a different list' % w[0])
        c.state('lists', w[0])
    ctx.explore('lists', lists)
