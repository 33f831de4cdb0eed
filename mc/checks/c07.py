"""C07: schema evolution: old and new versions of a struct interoperate."""
import copy
import pickle
import sys

from mc import wire, refschema
from mc.wire import St, Co, Pp
from mc.explore import Skip, short
from mc.refschema import resize
from mc.view import View, pyname
from mc.checks.c01 import validate_with_capnp

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': '8 versions of a recursive struct and 3 versions of a struct which gains a union: every (writer, reader, version of the nested objects, contents) x 5 '
             'placements; every wire size (0..max+2 words x 0..max+2 pointers) x every reader x 3 placements; every chain writer -> reader -> operation -> reader '
             '-> operation -> 4 readers over 8 copying operations; constructor lists mixing every triple of versions',
    'thorough': 'as quick with chains of three operations and lists mixing four versions'}
ASSUMPTIONS = ['upgrading a list of primitives to a list of structs is not supported by the library and outside the model',
               'the layout of every version comes from the official compiler; the messages of the model are cross-checked with `capnp convert`']
NV = 8


def run(ctx):
    import capnpy
    from capnpy.anypointer import AnyPointer
    S = ctx.schema('evo')
    mod = ctx.load('evo')
    sys.modules[mod.__name__] = mod
    view = View(S, mod)
    th = ctx.thorough
    msgs = {}
    REC = [S.byname['Rec%d' % i] for i in range(NV)]
    HOLD = [S.byname['Hold%d' % i] for i in range(NV)]
    PUT = [S.byname['Put%d' % i] for i in range(NV)]
    UN = [S.byname['Un%d' % i] for i in range(3)]
    VALUES = [
        {},
        {'a': 0, 't': b'text', 'b': False, 'c': -1, 'l': [1, -2, 3], 'd': 0, 'f': 0.0, 'e': 0, 'dat': b'\0\xff', 'g': {'gx': -1, 'gt': b'gt'}, 'ut': b'ut', 'tU': b'caf\xc3\xa9', 'w': 0},
        {'a': -1, 't': b'', 'b': True, 'c': 127, 'l': [], 'd': 2 ** 63 - 1, 'f': -2.25, 'e': 1, 'dat': b'', 'g': {'gx': 3}, 'ui': -7, 'w': 2 ** 64 - 1}]

    def tree(i, kind, sub=None, skind=None):
        """a Rec of version i; its nested objects are of version sub"""
        n = REC[i]
        st = S.to_wire(n, {k: v for k, v in VALUES[kind].items() if k in n.byname})
        if sub is not None:
            if 's' in n.byname:
                st.ptrs[n.byname['s'].offset] = tree(sub, skind)
            if 'ls' in n.byname:
                m = REC[sub]
                st.ptrs[n.byname['ls'].offset] = Co(m.dw, m.pw, [tree(sub, k) for k in (1, 0, skind)])
        return st

    def common(c, n, o, kind, i, what):
        """independent of the model of the layout: values which were written, and defaults"""
        w = REC[i]
        for f in n.fields:
            if f.group is not None or f.disc != 0xffff or f.name in ('s', 'ls'):
                continue
            got = getattr(o, pyname(f.name))
            if f.name in w.byname and f.name in VALUES[kind]:
                want = VALUES[kind][f.name]
            else:
                want = f.default if not f.type.is_ptr() else None
            if f.type.kind == 'list' and got is not None:
                got = list(got)
            if f.type.kind == 'enum':
                got = int(got)
            if f.name.endswith('U') and want is not None:
                want = want.decode('utf-8')
            c.eq(got, want, '%s.%s, written as version %d' % (what, f.name, i))

    def place(st, where, dw=None, pw=None):
        """the message which has st at `where`, and how to get there"""
        if where == 'root':
            return st
        h = S.to_wire(HOLD[0], {'n': 5, 'z': b'zz'})
        o = HOLD[0].byname
        if where == 'field':
            h.ptrs[o['r'].offset] = st
        elif where == 'item':
            first = St(b'\xee' * len(st.data), [wire.text(b'first')] * len(st.ptrs))
            h.ptrs[o['rs'].offset] = Co(st.dw, st.pw, [first, st, first])
        elif where == 'nested':
            h.ptrs[o['rr'].offset] = Pp([None, Co(st.dw, st.pw, [st]), Co(st.dw, st.pw, [])])
        elif where == 'any':
            h.ptrs[o['any'].offset] = st
        return h

    def get(buf, where, j):
        cls = view.cls(REC[j])
        if where == 'root':
            return capnpy.loads(buf, cls)
        h = capnpy.loads(buf, view.cls(HOLD[j]))
        if where == 'field':
            return h.r
        if where == 'item':
            return h.rs[1]
        if where == 'nested':
            return h.rr[1][0]
        return h.any.as_struct(cls)
    PLACES = ['root', 'field', 'item', 'nested', 'any']

    def pairs(c):
        i = c.choose(NV)
        kind = c.choose(3)
        nested = 's' in REC[i].byname
        sub = c.choose(NV) if nested else None
        skind = c.pick([1, 2]) if nested else None
        where = c.pick(PLACES)
        st = tree(i, kind, sub, skind)
        buf = wire.message(place(st, where))
        c.state(buf, where)
        if ctx.first() and where == 'root' and st.dw + st.pw:
            msgs.setdefault('Rec%d' % i, {})[buf] = wire.canon(st)
        for j in range(NV):
            what = '%s version %d (nested %s) read as %d' % (where, i, sub, j)
            o = get(buf, where, j)
            view.check_struct(c, REC[j], o, st, what)
            common(c, REC[j], o, kind, i, what)
            if nested and 's' in REC[j].byname:
                common(c, REC[j], o.s, skind, sub, what + '.s')
            if 'ls' in REC[i].byname and 'ls' in REC[j].byname:
                c.eq(len(o.ls), 3, what + ': len(ls)')
                for x, k in zip(o.ls, (1, 0, skind)):
                    common(c, REC[j], x, k, sub, what + '.ls[]')
    ctx.explore('pairs', pairs, shard_depth=2)

    # ---- sizes no version has
    DW, PW = REC[-1].dw, REC[-1].pw

    def sizes(c):
        full = tree(NV - 1, 1, c.pick([0, 3, NV - 1]), 2)
        dw, pw = c.choose(DW + 3), c.choose(PW + 3)
        where = c.pick(['root', 'item', 'field'])
        st = resize(St(full.data + b'\xa5' * 16, full.ptrs + [wire.text(b'new')] * 2), dw, pw)
        buf = wire.message(place(st, where))
        c.state(where, dw, pw)
        j = c.choose(NV)
        o = get(buf, where, j)
        what = '%s of %d words and %d pointers read as version %d' % (where, dw, pw, j)
        view.check_struct(c, REC[j], o, st, what)
        for name, fn in OPS[:4]:
            if where == 'root' and name == 'compact' and not th and (dw + pw) % 2:
                continue
            out = fn(o, j)
            if out is None:
                continue
            got = wire.decode_message(out)
            c.check(wire.canon(got) == wire.canon(st), '%s: %s lost data: %s instead of %s' % (what, name, short(wire.canon(got)), short(wire.canon(st))))

    # ---- operations which copy; each gives the bytes of a message whose root is the object
    def field(o, j):
        h = view.cls(PUT[j])(n=1, r=o, z=b'q')
        return capnpy.dumps(capnpy.loads(capnpy.dumps(h), view.cls(PUT[j])).r)

    def item(o, j):
        cls = view.cls(REC[j])
        h = view.cls(PUT[j])(rs=[cls(), o, cls()])
        return capnpy.dumps(capnpy.loads(capnpy.dumps(h), view.cls(PUT[j])).rs[1])

    def relist(o, j):
        h = view.cls(PUT[j])(rs=[o, o])
        h2 = view.cls(PUT[j])(rs=h.rs)
        return capnpy.dumps(h2.rs[1])

    def nested(o, j):
        h = view.cls(PUT[j])(rr=[[], [o]])
        return capnpy.dumps(h.rr[1][0])

    def pick(o, j):
        return capnpy.dumps(pickle.loads(pickle.dumps(o, 2)))
    OPS = [('dumps', lambda o, j: capnpy.dumps(o)), ('compact', lambda o, j: capnpy.dumps(o.compact())), ('slow', lambda o, j: o.dumps(fastpath=False)),
           ('field', field), ('item', item), ('relist', relist), ('nested', nested), ('pickle', pick)]
    ctx.explore('sizes', sizes, shard_depth=2)

    def chain(c):
        i = c.choose(NV)
        kind = c.pick([1, 2] if th else [1])
        sub = c.pick([2, NV - 1, 0] if th else [2, NV - 1]) if 's' in REC[i].byname else None
        st = tree(i, kind, sub, 1)
        want = wire.canon(st)
        buf = wire.message(st)
        steps = []
        for k in range(3 if th else 2):
            j = c.choose(NV) if th or k == 0 else c.pick([0, 3, 5, NV - 1])
            name, fn = c.pick(OPS)
            steps.append('as %d: %s' % (j, name))
            o = capnpy.loads(buf, view.cls(REC[j]))
            buf = fn(o, j)
            c.state(buf)
            got = wire.canon(wire.check_created(buf, exact=name not in ('pickle',)))
            c.check(got == want, 'version %d %s: the message became %s instead of %s' % (i, ', '.join(steps), short(got), short(want)))
            if k == 0 and not th and c.choose(2):
                # single operations are read back in every version, longer chains in the last
                for j in range(NV):
                    o = capnpy.loads(buf, view.cls(REC[j]))
                    view.check_struct(c, REC[j], o, st, 'version %d %s, read as %d' % (i, steps, j))
                    common(c, REC[j], o, kind, i, 'version %d %s, read as %d' % (i, steps, j))
                return
        o = capnpy.loads(buf, view.cls(REC[i]))
        view.check_struct(c, REC[i], o, st, 'version %d %s, read as %d' % (i, steps, i))
    ctx.explore('chain', chain, shard_depth=2)

    # ---- a list argument whose items have different sizes
    def mixed(c):
        j = c.choose(NV)
        vs = [c.choose(NV) for _ in range(4 if th else 3)]
        where = c.pick(['root', 'item'])
        sts = [tree(v, 1 + k % 2) for k, v in enumerate(vs)]
        objs = [get(wire.message(place(st, where)), where, j) for st in sts]
        h = view.cls(PUT[j])(n=2, rs=objs, z=b'end')
        buf = capnpy.dumps(h)
        c.state(buf)
        got = wire.check_created(buf, exact=True)
        co = got.ptrs[PUT[j].byname['rs'].offset]
        what = 'Put%d(rs=versions %s)' % (j, vs)
        c.eq(len(co.items), len(vs), what + ': items')
        for st, it, o in zip(sts, co.items, h.rs):
            c.check(wire.canon(it) == wire.canon(st), '%s: an item became %s instead of %s' % (what, short(wire.canon(it)), short(wire.canon(st))))
            view.check_struct(c, REC[j], o, st, what)
    ctx.explore('mixed', mixed, shard_depth=2)

    # ---- a struct which gains a union around an existing field
    def union(c):
        i = c.choose(3)
        n = UN[i]
        v = dict(c.pick([{}, {'a': -1, 'm': 0}, {'a': 5, 'm': 4}]))
        member = c.pick([None] + [f for f in n.fields if f.name not in 'am'])
        if member is not None:
            if member.group is not None:
                v['grp'] = c.pick([{}, {'p': 0, 'q': b'q'}])
            else:
                v[member.name] = c.pick({'text': [b'', b'xx'], 'int16': [0, -1], 'data': [b'', b'\0'], 'void': [None]}[member.type.kind])
        st = S.to_wire(n, v)
        buf = wire.message(st)
        comp = c.flag()
        c.state(i, buf)
        for j in range(3):
            o = capnpy.loads(buf, view.cls(UN[j]))
            view.check_struct(c, UN[j], o, st, 'Un%d read as %d' % (i, j))
            c.eq(o.a, v.get('a', 0), 'a')
            c.eq(o.m, v.get('m', 4), 'm')
            for k in range(3):
                again = capnpy.loads(capnpy.dumps(o.compact() if comp else o), view.cls(UN[k]))
                view.check_struct(c, UN[k], again, st, 'Un%d through %d read as %d' % (i, j, k))
    ctx.explore('union', union, shard_depth=2)

    if ctx.first() and not ctx.replay and not ctx.only:
        for name, m in sorted(msgs.items()):
            bufs = sorted(m)
            validate_with_capnp(ctx, name, bufs, [m[b] for b in bufs], 'evo')
