"""C11: lists behave as immutable Python sequences of the encoded items."""
import itertools

from mc import wire
from mc.wire import St, Pl, Pp, Co, Plan
from mc.explore import Skip, short
from mc.shapes import pointer_values, scalar_values, all_layout
from mc.view import View, pyname

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 1}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': '29 list fields (every element kind) x every value of the alphabet (lengths 0-5, 8, 9, 16, 17; every bool list up to 4) x every index in '
             '[-n-2, n+1] and beyond 32/64 bits, every slice with start/stop in {None, -n-1..n+1} and step in {None, +-1, +-2, +-3, 0}, iteration, '
             'reversal, membership; equality of every pair of values x 7 layouts of each side, across fields of equal and different types, with plain lists',
    'thorough': 'as quick with every 2-segment layout of both sides of small lists and lengths up to 6 for every slice'}
ASSUMPTIONS = ['NaN items are excluded from equality; lists of structs are not comparable (they raise TypeError, by design)',
               'lists of different element types may be unequal even if their items are equal']


def variants(tree):
    """physical layouts of a struct with one list"""
    n = len(wire.units_of(tree))
    out = [('canonical', Plan()), ('garbage padding', Plan(padbits=0xff, fill=0xee, extra={0: 1}))]
    if n > 1:
        out += [('gap', Plan(gap={i: 1 for i in range(1, n)}, fill=0xa5)), ('far', Plan(seg={i: 1 for i in range(1, n)}, fill=0x5a)),
                ('double far', Plan(far={i: ('double', 1) for i in range(1, n)}, nseg=2)),
                ('backwards', Plan(order=list(range(n))[::-1]))]
    if any(isinstance(u.node, Co) for u in wire.units_of(tree)):
        out.append(('slack', Plan(slack=2)))
    return out


def run(ctx):
    import capnpy
    S = ctx.schema('zoo')
    mod = ctx.load('zoo')
    view = View(S, mod)
    n = S.byname['Ptrs']
    LF = [f for f in n.fields if f.type.kind == 'list']
    th = ctx.thorough

    def tree_of(f, v):
        return S.to_wire(n, {f.name: v, 'n': 3})

    def load(f, v, plan=None):
        t = tree_of(f, v)
        o = capnpy.loads(wire.frame(wire.encode(t, plan)), view.cls(n))
        return getattr(o, pyname(f.name)), t

    def py(e, x, uni):
        """the Python value of an item; None when it is not a plain value"""
        if e.kind == 'text':
            return x.decode('utf-8') if uni and x is not None else x
        if e.kind == 'list':
            return [py(e.elem, y, uni) for y in x]
        return x

    def item_eq(c, e, got, x, tx, what, uni):
        """an item against the model: x is the value, tx the wire tree"""
        if e.kind == 'struct':
            view.check_struct(c, S.nodes[e.id], got, tx, what)
        elif e.kind == 'list':
            view.check_list(c, e.elem, got, tx, what, uni)
        elif e.kind == 'enum':
            c.check(isinstance(got, view.cls(S.nodes[e.id])), '%s: %r is not an enum' % (what, got))
            c.eq(int(got), x, what)
        else:
            c.eq(got, py(e, x, uni), what)

    def has_nan(v):
        if isinstance(v, list):
            return any(has_nan(x) for x in v)
        return isinstance(v, float) and v != v

    ALIEN = [12345, 'nope', b'nope', None, 1.5, True, 0]

    # ---- the sequence protocol
    def protocol(c):
        f = c.pick(LF)
        e = f.type.elem
        uni = f.name.endswith('U')
        vals = [v for v in pointer_values(S, f.type, (0, 1, 2, 3, 4, 5, 8, 9)) if v is not None]
        v = c.pick(vals)
        lay = c.choose(3)
        vs = variants(tree_of(f, v))
        if lay >= len(vs):
            raise Skip()
        lst, t = load(f, v, vs[[0, -1, 3][lay] if len(vs) > 3 else lay][1])
        node = t.ptrs[f.offset]
        trees = node.items if not isinstance(node, Pl) else [None] * len(v)
        k = len(v)
        what = 'Ptrs.%s=%s' % (f.name, short(v, 60))
        c.state(f.name, lay, repr(v))
        c.eq(len(lst), k, 'len(%s)' % what)
        c.eq(bool(lst), k > 0, 'bool(%s)' % what)

        def check(got, idx, w):
            c.eq(len(got), len(idx), w + ': length')
            for g, i in zip(got, idx):
                item_eq(c, e, g, v[i], trees[i], w, uni)
        for i in list(range(-k - 2, k + 2)) + [2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 1, -2 ** 32, 2 ** 62]:
            if -k <= i < k:
                item_eq(c, e, lst[i], v[i], trees[i], '%s[%d]' % (what, i), uni)
            else:
                try:
                    got = lst[i]
                except IndexError:
                    c.step()
                else:
                    c.fail('%s[%d] gave %s instead of IndexError' % (what, i, short(got)))
        for i in (2 ** 64, -2 ** 64, 'a', None, b'x', (1,)):
            try:
                got = lst[i]
            except (IndexError, TypeError, OverflowError):
                c.step()
            else:
                c.fail('%s[%r] gave %s' % (what, i, short(got)))
        # iteration, twice and interleaved
        check(list(lst), range(k), 'list(%s)' % what)
        check([x for x in lst], range(k), 'iteration of %s' % what)
        it1, it2 = iter(lst), iter(lst)
        for i in range(k):
            item_eq(c, e, next(it1), v[i], trees[i], what + ': iterator', uni)
            item_eq(c, e, next(it2), v[i], trees[i], what + ': second iterator', uni)
        for it in (it1, it2):
            try:
                next(it)
            except StopIteration:
                c.step()
            else:
                c.fail('%s: iterator goes on after %d items' % (what, k))
        check(list(reversed(lst)), range(k)[::-1], 'reversed(%s)' % what)
        # slices
        if k <= (6 if th else 4) or k in (9, 17):
            rng = list(range(-k - 1, k + 2)) if k <= 6 else [-k - 1, -k, -3, 0, 4, k - 1, k, k + 1]
            if lay and not th:
                rng = [-k - 1, -1, 0, 1, k]
            rng = [None] + rng + [2 ** 40, -2 ** 40]
            for a in rng:
                for b in rng:
                    for s in (None, 1, -1, 2, -2, 3, -3) if not lay else (None, -1, 2):
                        idx = range(*slice(a, b, s).indices(k))
                        check(lst[a:b:s], idx, '%s[%s:%s:%s]' % (what, a, b, s))
            try:
                lst[::0]
            except ValueError:
                c.step()
            else:
                c.fail('%s[::0] did not raise' % what)
        # membership
        if e.kind not in ('struct', 'list') and not has_nan(v):
            want = [py(e, x, uni) for x in v]
            for x in want + ALIEN:
                c.eq(x in lst, x in want, '%r in %s' % (x, what))
                if hasattr(lst, 'index'):
                    c.fail('unexpected list method')
    ctx.explore('protocol', protocol, shard_depth=2)

    # ---- equality
    def nostruct(t):
        return t.kind != 'struct' and (t.kind != 'list' or nostruct(t.elem))

    def small(f):
        e = f.type.elem
        lens = (0, 1, 2, 3, 8) if not e.is_ptr() else (0, 1, 2)
        vals = [v for v in pointer_values(S, f.type, lens) if v is not None and not has_nan(v)]
        if e.kind == 'bool':
            vals = [v for v in vals if len(v) in (0, 1, 2, 7, 8, 9)]
            vals = vals[:7] + vals[7::4]
        if e.kind == 'list' and e.elem.kind in ('int16', 'text'):
            sub = [x for x in pointer_values(S, e, (0, 1, 2)) if x is not None and len(x) < 3][:7]
            vals = [[]] + [[a] for a in sub] + [[a, b] for a in sub[:4] for b in sub[:4]]
        out = []
        for v in vals:
            if v not in out:
                out.append(v)
        lim = 40 if th else 14
        return out[:lim]

    def compare(c, a, b, same, what):
        c.eq(a == b, same, '%s: ==' % what)
        c.eq(a != b, not same, '%s: !=' % what)
        c.eq(b == a, same, '%s: == (swapped)' % what)

    CMP = [f for f in LF if nostruct(f.type)]

    def equal(c):
        f = c.pick(CMP)
        vs = small(f)
        u, v = c.choose(len(vs)), c.choose(len(vs))
        if v < u:
            raise Skip()
        uni = f.name.endswith('U')
        u, v = vs[u], vs[v]
        va, vb = variants(tree_of(f, u)), variants(tree_of(f, v))
        i, j = c.choose(len(va)), c.choose(len(vb))
        if not th and i and j and i != j and u != v:
            raise Skip()
        a, ta = load(f, u, va[i][1])
        b, tb = load(f, v, vb[j][1])
        # deciding what an item is: its Python value
        pu, pv = [py(f.type.elem, x, uni) for x in u], [py(f.type.elem, x, uni) for x in v]
        what = 'Ptrs.%s %s (%s) / %s (%s)' % (f.name, short(u, 60), va[i][0], short(v, 60), vb[j][0])
        c.state(f.name, repr(u), repr(v), i, j)
        compare(c, a, b, pu == pv, what)
        compare(c, a, pv, pu == pv, what + ' plain list')
        compare(c, a, pu, True, what + ' own plain list')
        c.eq(a == a, True, what + ': itself')
        for bad in (tuple(pu), None, 3, 'x', {}):
            c.eq(a == bad, False, '%s == %r' % (what, bad))
            c.eq(a != bad, True, '%s != %r' % (what, bad))
        import operator
        for op in (operator.lt, operator.le, operator.gt, operator.ge):
            for x in (b, pv):
                try:
                    r = op(a, x)
                except TypeError:
                    c.step()
                    continue
                c.fail('%s: %s answered %r' % (what, op.__name__, r))
        try:
            hash(a)
        except TypeError:
            c.step()
        else:
            c.fail('%s: hashable' % what)
    ctx.explore('equal', equal, shard_depth=2)

    # ---- lists from different fields
    def fields(c):
        f, g = c.pick(CMP), c.pick(CMP)
        vf = [v for v in small(f) if len(v) < 3][:8]
        vg = [v for v in small(g) if len(v) < 3][:8]
        u, v = c.pick(vf), c.pick(vg)
        a, b = load(f, u)[0], load(g, v)[0]
        pu = [py(f.type.elem, x, f.name.endswith('U')) for x in u]
        pv = [py(g.type.elem, x, g.name.endswith('U')) for x in v]
        what = 'Ptrs.%s %r / Ptrs.%s %r' % (f.name, u, g.name, v)
        c.state(what)
        if pu != pv:
            compare(c, a, b, False, what)
            compare(c, a, pv, False, what)
        else:
            c.check((a == b) == (b == a) and (a == b) != (a != b), what + ': incoherent')
            compare(c, a, pv, True, what)
    ctx.explore('fields', fields, shard_depth=1)

    # the same element type in another struct
    SAME = [('Ptrs', 'lli16', 'LayN', 'lli16', [[], [1], [2, 3]]), ('Ptrs', 'lltext', 'LayN', 'lltext', [[], [b'a'], [b'b', b'']]),
            ('Ptrs', 'li32', 'LayL', 'li32', [1, -2, 3]), ('Ptrs', 'lbool', 'LayL', 'lbool', [True, False, True]), ('Ptrs', 'lvoid', 'LayL', 'lvoid', [None, None])]

    def other(c):
        s1, f1, s2, f2, items = c.pick(SAME)
        i, j = c.choose(len(items) + 1), c.choose(len(items) + 1)
        u, v = items[:i], items[:j]

        def get(s, f, v):
            t = S.to_wire(s, {f: v})
            vs = variants(t)
            return getattr(capnpy.loads(wire.frame(wire.encode(t, c.pick(vs)[1])), view.cls(S.byname[s])), pyname(f))
        a, b = get(s1, f1, u), get(s2, f2, v)
        compare(c, a, b, u == v, '%s.%s=%r / %s.%s=%r' % (s1, f1, u, s2, f2, v))
    ctx.explore('other struct', other)

    # ---- every layout
    def layouts(c):
        tname, f, v, w = c.pick([('Ptrs', 'ltext', [b'ab', b''], [b'ab']), ('Ptrs', 'ldata', [b'\1'], [b'\2']), ('Ptrs', 'lli16', [[1, 2], []], [[1], []]),
                                 ('Ptrs', 'li32', [5, 6, 7], [5, 6, 8]), ('Ptrs', 'lbool', [True, False, True], [True, False, False]),
                                 ('Ptrs', 'lltext', [[b'x']], [[b'y']])])
        f = n.byname[f]
        t = tree_of(f, v)
        plan = all_layout(c, t, nseg=2, gaps=(0, 1), dev=not th)
        a = getattr(capnpy.loads(wire.frame(wire.encode(t, plan)), view.cls(n)), pyname(f.name))
        b = load(f, v)[0]
        d = load(f, w)[0]
        c.state(f.name, wire.frame(wire.encode(t, plan)))
        compare(c, a, b, True, 'Ptrs.%s in another layout' % f.name)
        compare(c, a, v, True, 'Ptrs.%s plain' % f.name)
        compare(c, a, d, False, 'Ptrs.%s %r/%r' % (f.name, v, w))
    ctx.explore('layouts', layouts, max_dev=2 if not th else 0, shard_depth=2)

    # ---- null and default lists; null items
    def nulls(c):
        f = c.pick(LF)
        o = capnpy.loads(wire.frame(wire.encode(S.to_wire(n, {}))), view.cls(n))
        c.eq(getattr(o, pyname(f.name)), None, 'null list')
        g = getattr(o, 'get_' + pyname(f.name))()
        c.eq(len(g), 0, 'get_ of a null list')
        c.eq(list(g), [], 'items of a null list')
        if f.type.elem.kind not in ('struct',):
            c.eq(g == [], True, 'null list == []')
        if f.type.elem.kind in ('text', 'data'):
            k = c.choose(3)
            items = [wire.text(b'a') if f.type.elem.kind == 'text' else wire.data(b'a'), None, None]
            t = S.to_wire(n, {})
            t.ptrs[f.offset] = Pp(items[:k + 1])
            lst = getattr(capnpy.loads(wire.frame(wire.encode(t)), view.cls(n)), pyname(f.name))
            one = u'a' if f.name.endswith('U') else b'a'
            c.eq(list(lst), [one, None, None][:k + 1], 'null items')
            c.eq(lst == [one, None, None][:k + 1], True, 'null items ==')
            for i in range(3):
                t2 = S.to_wire(n, {})
                t2.ptrs[f.offset] = Pp([items[0], items[0], None][:i + 1])
                l2 = getattr(capnpy.loads(wire.frame(wire.encode(t2, Plan(gap={1: 1}))), view.cls(n)), pyname(f.name))
                compare(c, lst, l2, [one, None, None][:k + 1] == [one, one, None][:i + 1], 'null items %d/%d' % (k, i))
    ctx.explore('nulls', nulls)

    # ---- lists of structs refuse comparison instead of answering wrongly
    def structs(c):
        f = c.pick([f for f in LF if f.type.elem.kind == 'struct'])
        vs = [v for v in pointer_values(S, f.type) if v is not None][:4]
        a, b = load(f, c.pick(vs))[0], load(f, c.pick(vs))[0]
        for x, y in ((a, b), (a, []), ([], a), (a, list(b))):
            for op in ('==', '!='):
                try:
                    r = (x == y) if op == '==' else (x != y)
                except TypeError:
                    c.step()
                else:
                    c.fail('%s %s answered %r' % (f.name, op, r))
    ctx.explore('structs', structs)
    ctx.sample('element kinds: %s' % ', '.join(f.name for f in LF))
