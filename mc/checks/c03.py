"""C03: every way of copying an object out of its message preserves its whole content."""
import io

from mc import wire, refschema
from mc.wire import St, Pl, Pp, Co, Plan
from mc.explore import Skip
from mc.shapes import all_layout, pointer_values
from mc.view import View, walk, pyname
from mc.checks.c01 import shapes, big_shapes, ANY

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 4, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': 'every object (root, nested, list item) of 21 wire trees x every layout with 2 segments and all far-pointer forms for trees of '
             '<=3 allocations, <=2 layout deviations for larger ones, x copy routes {dumps fast, dumps slow, dump to file, compact, struct '
             'argument, list item argument, all fields re-embedded}; source structs and list items of every size from 0 to 2 words beyond the '
             'schema in both sections; every boundary list/text/struct value',
    'thorough': 'as quick with 3 segments and 4 layout deviations'}
ASSUMPTIONS = ['content = wire tree modulo trailing zero words and trailing null pointers (unobservable under schema evolution)']


def copy_routes(view, n, obj, tree, route):
    """-> (message bytes, expected tree) or None if not applicable"""
    import capnpy
    mod, S = view.mod, view.S
    if route == 'dumps':
        return obj.dumps(), tree
    if route == 'dumps-slow':
        return obj.dumps(fastpath=False), tree
    if route == 'dump':
        f = io.BytesIO()
        obj.dump(f)
        return f.getvalue(), tree
    if route == 'compact':
        return obj.compact().dumps(), tree
    if route == 'compact-slow':
        return obj.compact().compact().dumps(fastpath=False), tree
    if route == 'message.dumps':
        return capnpy.dumps(obj), tree
    if route == 'field':
        parents = {'Inner': ('Ptrs', 'inner'), 'Leaf': ('PtrOnly', 'p'), 'Tree': ('Tree', 'right'), 'Names': ('Two', 'q'), 'Empty': ('LayE', 'empty')}
        if n.name not in parents:
            return None
        tname, fname = parents[n.name]
        p = S.byname[tname]
        new = view.cls(p)(**{fname: obj})
        want = S.to_wire(p, {})
        want.ptrs[p.byname[fname].offset] = tree
        return new.dumps(fastpath=False), want
    if route == 'item':
        parents = {'Inner': ('Ptrs', 'linner'), 'Leaf': ('Ptrs', 'lleaf'), 'Tree': ('Tree', 'kids'), 'Names': ('Ptrs', 'lnames'), 'Empty': ('Ptrs', 'lempty')}
        if n.name not in parents:
            return None
        tname, fname = parents[n.name]
        p = S.byname[tname]
        other = view.cls(n)()
        new = view.cls(p)(**{fname: [other, obj, other, obj]})
        e = S.to_wire(n, {})
        want = S.to_wire(p, {})
        dw, pw = max(e.dw, tree.dw), max(e.pw, tree.pw)
        want.ptrs[p.byname[fname].offset] = Co(dw, pw, [refschema.resize(x, dw, pw) for x in (e, tree, e, tree)])
        return new.dumps(fastpath=False), want
    if route == 'rebuild':
        # all the fields passed as they are to the constructor of the same type
        if n.is_group or n.nunion or any(f.group is not None or f.type.kind == 'anyPointer' for f in n.fields):
            return None
        kw = {}
        for f in n.fields:
            if f.type.kind == 'void':
                continue
            v = getattr(obj, pyname(f.name))
            if f.type.kind == 'list' and f.type.elem.kind == 'bool' and v is not None:
                return None
            kw[pyname(f.name)] = v
        new = view.cls(n)(**kw)
        # only the known fields are passed on
        prims = {f.name: S.read_slot(f, tree) for f in n.fields if not f.type.is_ptr() and f.type.kind != 'void'}
        return new.dumps(fastpath=False), St(S.to_wire(n, prims).data, refschema.resize(tree, n.dw, n.pw).ptrs)
    raise KeyError(route)


ROUTES = ['dumps', 'dumps-slow', 'dump', 'compact', 'compact-slow', 'field', 'item', 'rebuild']


def run(ctx):
    import capnpy
    S = ctx.schema('zoo')
    mod = ctx.load('zoo')
    view = View(S, mod, ANY)
    th = ctx.thorough

    def check_copies(c, tname, tree, segs, routes=ROUTES, reread=True, exact=True):
        buf = wire.frame(segs)
        n = S.byname[tname]
        root = capnpy.loads(buf, view.cls(n))
        objs = walk(view, n, root, tree, tname, groups=True)
        c.state(tname, buf)
        for path, m, obj, t in objs:
            for r in routes:
                got = copy_routes(view, m, obj, t, r)
                if got is None:
                    continue
                out, want = got
                try:
                    x = wire.check_created(out, exact)
                except wire.WireError as e:
                    c.fail('%s of %s: not a well formed message: %s' % (r, path, e))
                a, b = wire.canon(x), wire.canon(want)
                c.check(a == b, '%s of %s: content %r != %r' % (r, path, a, b))
        if reread:
            view.check_struct(c, n, root, tree, tname + ' after copying')

    def reread_copy(c, n, out, tree):
        view.check_struct(c, n, capnpy.loads(out, view.cls(n)), tree, 'copy')

    def layouts(name, tname, tree, nseg, dev, gaps, maxdev, depth):
        def fn(c):
            plan = all_layout(c, tree, nseg=nseg, gaps=gaps, dev=dev, far_same=not dev or th)
            check_copies(c, tname, tree, wire.encode(tree, plan))
        ctx.explore(name, fn, max_dev=maxdev, shard_depth=depth)
    for name, tname, tree in shapes(S):
        k = len(wire.units_of(tree))
        layouts('layout/' + name, tname, tree, 3 if th else 2, k >= 3, (0, 1), 5 if th else 3, min(k, 3))
    for name, tname, tree in big_shapes(S):
        layouts('layoutdev/' + name, tname, tree, 3 if th else 2, True, (0, 1, 2), 4 if th else 2, 3)

    # garbage in the padding, trailing words, message starting with a gap
    for name, tname, tree in shapes(S):
        def fn(c):
            plan = Plan(padbits=c.pick([0, 0xff]), fill=0xee, extra={0: c.pick([0, 1])}, gap={0: c.pick([0, 2])},
                        empty_off=c.pick([-1, 'real']), slack=c.pick([0, 1, 3]))
            check_copies(c, tname, tree, wire.encode(tree, plan), exact=not plan.slack)
        ctx.explore('padding/' + name, fn)

    # ---- every kind of pointer value
    pn = S.byname['Ptrs']
    pf = [f for f in pn.fields if f.type.is_ptr()]

    def pointers(c):
        f = c.pick(pf)
        v = c.pick(pointer_values(S, f.type))
        c.note('%s=%r' % (f.name, v))
        t = S.to_wire(pn, {f.name: v, 'n': -2, 'text': b'last'})
        segs = wire.encode(t, Plan(padbits=c.pick([0, 0xff])) if c.flag() else
                           Plan(seg={i: 1 for i in range(2, 60)}))
        check_copies(c, 'Ptrs', t, segs, ['dumps', 'dumps-slow', 'compact', 'rebuild'], reread=False)
    ctx.explore('pointers', pointers, shard_depth=2)

    # ---- sources written with another version of the schema
    def sized(c):
        dw, pw = c.choose(4), c.choose(5)
        data = bytes(bytearray((17 * i + 1) % 250 + 1 for i in range(dw * 8)))
        ptrs = [[None, wire.text(b'abc'), wire.data(b'12345678')][c.choose(3)] if i == 0 else
                [wire.Pl(3, 3, b'\1\0\2\0\3\0'), St(b'\7' * 8, [wire.text(b'unk')])][i % 2] for i in range(pw)]
        if pw > 1:
            ptrs[1] = c.pick([None, Pl(3, 2, b'\5\0\6\0')])    # Inner.c is List(Int16)
        if pw:
            ptrs[0] = wire.text(b'txt') if ptrs[0] is not None else None
        for i in range(2, pw):
            ptrs[i] = St(b'\7' * 8, [wire.text(b'unk')]) if i % 2 else wire.data(b'more unknown')
        inner = St(data, ptrs)
        where = c.pick(['root', 'field', 'item'])
        if where == 'root':
            tname, t = 'Inner', inner
        elif where == 'field':
            tname = 'One'
            t = St(b'\1\2' + b'\0' * 6 + b'\xaa' * 8 * c.choose(2), [inner])
        else:
            tname = 'LayC'
            t = St(b'', [Co(dw, pw, [inner, St(b'\0' * dw * 8, [None] * pw), inner]), None, wire.text(b'after')])
        layout = c.pick([Plan(), Plan(seg={i: 1 for i in range(1, 30)}), Plan(order=list(range(len(wire.units_of(t))))[::-1])])
        check_copies(c, tname, t, wire.encode(t, layout))
    ctx.explore('sized', sized, shard_depth=2)

    # ---- lists built out of items of different origin and size
    def mixed(c):
        items, trees = [], []
        n = S.byname['Inner']
        for i in range(c.choose(3) + 1):
            dw, pw = c.pick([0, 1, 2]), c.pick([0, 1, 2, 3])
            data = bytes(bytearray([(i + 1) * 16 + j for j in range(dw * 8)]))
            t = St(data, [wire.text(b't%d' % i), Pl(3, 1, b'\1\0'), wire.data(b'x%d' % i)][:pw])
            trees.append(t)
            obj = capnpy.loads(wire.message(t), mod.Inner)
            if c.flag():
                obj = capnpy.loads(wire.message(St(b'', [Co(dw, pw, [t]), None, None])), mod.LayC).linner[0]
            items.append(obj)
        new = mod.LayC(linner=items, text=b'after')
        dw = max([n.dw] + [t.dw for t in trees])
        pw = max([n.pw] + [t.pw for t in trees])
        want = St(b'', [Co(dw, pw, [refschema.resize(t, dw, pw) for t in trees]), None, wire.text(b'after')])
        try:
            got = wire.check_created(new.dumps())
        except wire.WireError as e:
            c.fail('list of items of other schema versions: %s' % e)
        c.eq(wire.canon(got), wire.canon(want), 'list of items of other schema versions')
        c.state('mixed', new.dumps())
    ctx.explore('mixed', mixed, shard_depth=3)
    ctx.sample('executions by scenario: %r' % (dict(list(ctx.ex.scenarios.items())[:4]),))
