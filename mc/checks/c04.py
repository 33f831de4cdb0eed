"""C04: the compactness verdict is exact; what capnpy creates is compact and takes no extra space."""
from mc import wire, refschema
from mc.wire import St, Pl, Pp, Co, Plan
from mc.shapes import all_layout, pointer_values
from mc.view import View, walk
from mc.construct import Maker
from mc.checks.c01 import shapes, big_shapes, ANY

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 4, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': 'verdict of every struct (root, nested, list item, group) of 24 wire trees in every layout: all orders, 2 segments, all far-pointer '
             'forms, 0/1-word gaps for trees of <=3 allocations; <=2 layout deviations for larger ones and 3 segments; slack words, gaps, empty '
             'structs at every position; created/loaded/compacted objects for every pointer field x boundary value, pairs of fields',
    'thorough': 'as quick with 3 segments, 2-word gaps, <=4 layout deviations and all pairs of pointer values'}
ASSUMPTIONS = ['contiguity is computed by an independent walk of the layout; the position of zero-sized objects is not constrained '
               '(no byte depends on it), beyond what dumps needs (C03)']


def clone(t):
    """the same tree without shared nodes"""
    if isinstance(t, St):
        return St(t.data, [clone(x) for x in t.ptrs])
    if isinstance(t, Pp):
        return Pp([clone(x) for x in t.items])
    if isinstance(t, Co):
        return Co(t.dw, t.pw, [clone(x) for x in t.items])
    if isinstance(t, Pl):
        return Pl(t.tag, t.count, t.raw)
    return t


class DontCare(Exception):
    pass


class Verdict(object):
    """the model: is the object at a given position one contiguous pre-order block?"""

    def __init__(self, plan, pos, units):
        self.plan, self.pos = plan, pos
        self.unit = {id(u.node): u for u in units}
        self.items = {}
        for u in units:
            if isinstance(u.node, Co):
                isz = u.node.dw + u.node.pw
                s, w = pos[u.idx]
                for i, it in enumerate(u.node.items):
                    self.items[id(it)] = (s, w + 1 + i * isz)

    def is_far(self, u):
        if u.nwords == 0 and isinstance(u.node, St) and u.idx not in self.plan.far and self.plan.empty_off == -1:
            return False
        mode = self.plan.far.get(u.idx)
        src = 0 if u.parent is None else self.plan.seg.get(u.parent.idx, 0)
        if mode is None:
            return src != self.plan.seg.get(u.idx, 0)
        return mode != 'near'

    def end(self, node):
        """end of the block which starts at node (a struct), or None"""
        if id(node) in self.items:
            s, w = self.items[id(node)]
        else:
            s, w = self.pos[self.unit[id(node)].idx]
        return self._struct(node, s, w)

    def _struct(self, node, s, w):
        return self._children(node.ptrs, s, w + node.dw + node.pw)

    def _children(self, children, s, cur):
        for ch in children:
            if ch is None:
                continue
            u = self.unit[id(ch)]
            if self.is_far(u):
                return None
            if u.nwords == 0:
                if self.pos[u.idx] != (s, cur) and not (isinstance(ch, St) and self.plan.empty_off == -1 and u.idx not in self.plan.far):
                    raise DontCare()
                continue
            if self.pos[u.idx] != (s, cur):
                return None
            cur = self._body(ch, u, s, cur)
            if cur is None:
                return None
        return cur

    def _body(self, n, u, s, w):
        if isinstance(n, St):
            return self._struct(n, s, w)
        if isinstance(n, Pl):
            return w + wire.words(len(n.raw))
        if isinstance(n, Pp):
            return self._children(n.items, s, w + len(n.items))
        if self.plan.slack:
            return None
        cur = w + 1 + len(n.items) * (n.dw + n.pw)
        return self._children([ch for it in n.items for ch in it.ptrs], s, cur)


def content_words(t):
    return sum(u.nwords for u in wire.units_of(t))


def run(ctx):
    import capnpy
    S = ctx.schema('zoo')
    mod = ctx.load('zoo')
    view = View(S, mod, ANY)
    th = ctx.thorough

    def compacted(c, path, obj, t, slack=0):
        """compact() and dumps+loads give compact objects without extra space"""
        need = content_words(t) + slack
        new = obj.compact()
        c.check(new._is_compact(), '%s.compact() is not compact' % path)
        words = (len(new.dumps(fastpath=False)) - 16) // 8
        c.check(words <= need, '%s.compact().dumps(): %d words instead of %d' % (path, words, need))
        words = (len(new._seg.buf) - 8) // 8
        c.check(words <= need, '%s.compact(): %d words instead of %d' % (path, words, need))
        for fast in (True, False):
            new = capnpy.loads(obj.dumps(fastpath=fast), type(obj))
            c.check(new._is_compact(), '%s loaded from dumps(fastpath=%s) is not compact' % (path, fast))

    def verdicts(c, tname, tree, plan, create=True):
        segs, pos, units = wire.layout(tree, plan)
        buf = wire.frame(segs)
        n = S.byname[tname]
        root = capnpy.loads(buf, view.cls(n))
        v = Verdict(plan, pos, units)
        c.state(tname, buf)
        for path, m, obj, t in walk(view, n, root, tree, tname, groups=True):
            try:
                want = v.end(t)
            except DontCare:
                continue
            c.eq(bool(obj._is_compact()), want is not None, '%s._is_compact()' % path)
            if create:
                compacted(c, path, obj, t)
        # the bytes of the block alone reproduce the object: dumps of a compact object is exactly them
            if want is not None and want:
                s, w = v.items[id(t)] if id(t) in v.items else v.pos[v.unit[id(t)].idx]
                body = obj.dumps()[16:]
                c.eq(body, segs[s][w * 8:want * 8], 'dumps of the compact object %s' % path)

    def layouts(name, tname, tree, nseg, dev, gaps, maxdev, depth):
        def fn(c):
            t = clone(tree)
            plan = all_layout(c, t, nseg=nseg, gaps=gaps, dev=dev, far_same=not dev or th)
            verdicts(c, tname, t, plan, create=False)
        ctx.explore(name, fn, max_dev=maxdev, shard_depth=depth)

    for name, tname, tree in shapes(S):
        k = len(wire.units_of(tree))
        layouts('layout/' + name, tname, tree, 3 if th else 2, k > 3 and not th, (0, 1), 3, min(k, 3))
    more = [('deep', 'Tree', S.to_wire('Tree', {'left': {'left': {'left': {'val': 9}}}})),
            ('kids', 'Tree', S.to_wire('Tree', {'kids': [{'kids': [{'val': 1}]}, {'left': {}}], 'right': {}}))]
    for name, tname, tree in big_shapes(S) + more:
        layouts('layoutdev/' + name, tname, tree, 3 if th else 2, True, (0, 1, 2), 4 if th else 2, 3)

    # all permutations of 4 sibling allocations, one gap anywhere
    def perms(c):
        t = clone(S.to_wire('Two', {'v': 7, 't': b'text', 'q': {'s': b'sss', 'd': b'\0\1'}}))
        verdicts(c, 'Two', t, all_layout(c, t, nseg=1, gaps=(0, 1), far_same=False), create=False)
    ctx.explore('perms/two', perms, shard_depth=2)

    def perms2(c):
        t = clone(S.to_wire('LayN', {'lnames': [{'s': b'a', 'd': b'bb'}, {'s': b'123456789'}]}))
        verdicts(c, 'LayN', t, all_layout(c, t, nseg=1, gaps=(0, 1), far_same=False), create=False)
    ctx.explore('perms/lnames', perms2, shard_depth=2)

    # compaction of everything
    for name, tname, tree in shapes(S) + big_shapes(S) + more:
        def fn(c):
            t = clone(tree)
            units = wire.units_of(t)
            plan = c.pick([Plan(), Plan(seg={i: i % 2 for i in range(len(units))}), Plan(order=list(range(len(units)))[::-1])] +
                          [Plan(gap={i: 1}) for i in range(len(units))])
            plan.padbits = c.pick([0, 0xff])
            plan.slack = c.pick([0, 2])
            plan.empty_off = c.pick([-1, 'real'])
            verdicts(c, tname, t, plan)
        ctx.explore('compact/' + name, fn)

    # sizes unknown to the schema
    def sized(c):
        dw, pw = c.choose(4), c.choose(5)
        ptrs = [wire.text(b'txt'), Pl(3, 2, b'\5\0\6\0'), St(b'\7' * 8, [wire.text(b'unk')]), wire.data(b'more')][:pw]
        for i in range(pw):
            if c.flag():
                ptrs[i] = None
        t = St(b'\1' * dw * 8, ptrs)
        if c.flag():
            t = St(b'', [Co(dw, pw, [t, clone(t)]), None, wire.text(b'x')])
            tname = 'LayC'
        else:
            tname = 'Inner'
        units = wire.units_of(t)
        plan = c.pick([Plan()] + [Plan(gap={i: 1}) for i in range(len(units))] + [Plan(slack=1)])
        verdicts(c, tname, t, plan)
    ctx.explore('sized', sized, shard_depth=2)

    # ---- objects created by constructors
    mk = Maker(view)

    def created(c, tname, value):
        n = S.byname[tname]
        obj = mk.struct(n, value)
        c.state(tname, obj.dumps())
        t = S.to_wire(n, value)
        c.check(obj._is_compact(), 'the constructed %s is not compact' % tname)
        words = (len(obj.dumps()) - 16) // 8
        c.check(words <= content_words(t), 'constructed %s: %d words instead of %d' % (tname, words, content_words(t)))
        compacted(c, tname, obj, t)
        for path, m, o, x in walk(view, n, obj, t, tname)[1:]:
            compacted(c, path, o, x)

    pn = S.byname['Ptrs']
    pf = [f for f in pn.fields if f.type.is_ptr() and f.name != 'lbool']

    def single(c):
        f = c.pick(pf)
        v = c.pick(pointer_values(S, f.type))
        c.note('%s=%r' % (f.name, v))
        created(c, 'Ptrs', {f.name: v, 'n': 1, 'text': b'a'} if f.name != 'text' else {f.name: v})
    ctx.explore('created/single', single, shard_depth=2)

    def pair(c):
        i = c.choose(len(pf))
        j = c.choose(len(pf))
        if j <= i:
            from mc.explore import Skip
            raise Skip()
        a, b = pf[i], pf[j]
        va, vb = pointer_values(S, a.type), pointer_values(S, b.type)
        pick = (lambda vs: c.pick(vs)) if th else (lambda vs: c.pick([vs[1], vs[-1], vs[len(vs) // 2]]))
        x, y = pick(va), pick(vb)
        created(c, 'Ptrs', {a.name: x, b.name: y})
    if not ctx.pyx or th:
        ctx.explore('created/pair', pair, shard_depth=2)

    def unions(c):
        v = {'common': 1}
        v.update(c.pick([{'nothing': None}, {'flag': True}, {'text': b'abc'}, {'leaf': {'x': 1}}, {'list': [{'b': b'q'}, {}]},
                         {'grp': {'a': 1, 'b': b'gg'}}]))
        v['tail'] = c.pick([None, b'tl'])
        v['named'] = c.pick([{'one': None}, {'three': b'\0'}, {'four': {'c': [1]}}])
        created(c, 'Un', v)
    ctx.explore('created/union', unions)

    def groups(c):
        v = {'g': {'name': c.pick([None, b'x']), 'inner': c.pick([None, {'x': 1}]), 'h': {'l': c.pick([None, [], [1, 2, 3]])}},
             'after': c.pick([None, b'z'])}
        created(c, 'Grp', v)
    ctx.explore('created/group', groups)

    # objects built from parts of other messages, with any layout
    def from_parts(c):
        src = clone(S.to_wire('Tree', {'val': 1, 'name': b'n', 'kids': [{'val': 4, 'name': b'four'}, {'val': 5}]}))
        plan = all_layout(c, src, nseg=2, gaps=(0, 1), far_same=False, dev=True)
        old = capnpy.loads(wire.message(src, plan), mod.Tree)
        new = mod.Tree(left=old, kids=[old.kids[1], old, old.kids[0]], right=old.kids[0])
        c.state('parts', new.dumps())
        c.check(new._is_compact(), 'object built from parts is not compact')
        c.check(new.left._is_compact() and new.right._is_compact(), 'fields of object built from parts are not compact')
        c.check(capnpy.loads(new.dumps(fastpath=False), mod.Tree)._is_compact(), 'not compact after a round trip')
    ctx.explore('created/parts', from_parts, max_dev=3 if th else 2, shard_depth=3)
