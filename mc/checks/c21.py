"""C21: objects are immutable values: no operation changes what others observe."""
import copy
import io
import operator
import pickle
import sys

from mc import wire
from mc.wire import St, Plan
from mc.explore import Skip, short
from mc.view import View, walk, pyname
from mc.checks.c01 import ANY

MODES = ('pyx', 'cpy', 'pypy', 'pure')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2, 'pure': 3}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2, 'pure': 2}}
BOUNDS = {
    'quick': '8 messages x 2 layouts (1 for the largest); two objects of every type of the message (structs, groups, lists, untyped pointers) x every operation on them (reads, '
             'getters, queries, comparisons, hash, print, dumps, compact, pickle, copy, raw dump, constructor argument, assignment and deletion of attributes and items), first '
             'alone on a fresh message and then followed, on the same message, by every operation on the same object and on the root and a third of those on the other objects; '
             'constructor arguments of every kind; in pure Python every operation preempted at every line (every 2nd or 5th line of the operations longer than 40 lines) by two '
             'operations which run to completion and take turns',
    'thorough': 'every object of the messages, both layouts, every pair of operations from a fresh message, and preemption at every line by every operation'}
ASSUMPTIONS = ['an operation is deterministic: its result alone on a fresh message is the reference',
               'in pure Python mode new attributes can be added to objects (they are ordinary Python objects); fields cannot be assigned',
               'preemptions happen between source lines, and the preempting operation runs to completion (one context switch)']


def run(ctx):
    import capnpy
    from capnpy.struct_ import Struct
    from capnpy.list import List
    from capnpy.anypointer import AnyPointer
    from capnpy.enum import BaseEnum
    from capnpy.type import Types
    S = ctx.schema('zoo')
    mod = ctx.load('zoo')
    sys.modules[mod.__name__] = mod
    view = View(S, mod, ANY)
    th = ctx.thorough

    def val(x):
        if isinstance(x, Struct):
            return ('struct', type(x).__name__, x.dumps())
        if isinstance(x, List):
            return ('list', [val(y) for y in x])
        if isinstance(x, AnyPointer):
            return ('any', x.is_struct(), x.is_list(), x.is_text())
        if isinstance(x, BaseEnum):
            return ('enum', type(x).__name__, int(x))
        if isinstance(x, float):
            return ('float', repr(x))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [val(y) for y in x])
        return (type(x).__name__, repr(x))

    def outcome(fn):
        try:
            return val(fn())
        except Exception as e:
            return ('raises', type(e).__name__)

    def tree_of(name):
        inner = {'a': -5, 'b': b'inner', 'c': [1, 2, 3], 'd': 0}
        vals = {
            'Ptrs': dict(n=7, text=b'text', textU=b'caf\xc3\xa9', data=b'\0\xff', inner=inner, leaf={'x': 5}, empty={}, names={'s': b's'}, lvoid=[None] * 3, lbool=[True, False] * 5,
                         li8=[1, -1], lu16=[7], li32=[1, 2, 3], lu64=[2 ** 64 - 1], lf32=[1.5], lf64=[0.1, -0.0], lcolor=[0, 2], ltext=[b'a', b'bb'], ltextU=[b'u'], ldata=[b'\0'],
                         linner=[inner, {}], lleaf=[{'x': 1}, {'y': 2}], lnames=[{'s': b'1'}], lempty=[{}], lli16=[[1], []], lltext=[[b'x']], llinner=[[inner]]),
            'Tree': dict(val=1, name=b'n', left=dict(val=2, kids=[dict(val=3, name=b'k'), {}]), kids=[dict(val=4)]),
            'Un': dict(common=1, list=[inner], tail=b'tail', named={'four': inner}),
            'Un2': dict(grp={'a': 1, 'b': b'gb'}, named={'three': b'\1'}),
            'Grp': dict(before=1, g={'x': 0, 'name': b'gn', 'inner': {'x': 9}, 'h': {'z': 1, 'l': [1, 2]}}, after=b'z'),
            'Keyed': dict(num=1, text=b't', other=b'o', leaf={'x': 1, 'name': b'kn'}),
            'Prims': {},
        }
        if name == 'LayA':
            st = S.to_wire('LayA', {'inner': inner, 'n': 3})
            st.ptrs[0] = S.to_wire('Inner', inner)
            st.ptrs[1] = wire.text(b'atext')
            st.ptrs[2] = wire.Pl(3, 2, b'\1\0\2\0')
            return 'LayA', st
        if name == 'Prims':
            n = S.byname['Prims']
            data = bytearray((i * 37 + 5) % 251 for i in range(n.dw * 8))
            for f in n.fields:
                if f.type.kind == 'enum':
                    data[f.offset * 2:f.offset * 2 + 2] = b'\1\0'
            return 'Prims', St(bytes(data), [None] * n.pw)
        return name.rstrip('2'), S.to_wire(name.rstrip('2'), vals[name])
    NAMES = ['Ptrs', 'Tree', 'Un', 'Un2', 'Grp', 'Keyed', 'LayA', 'Prims']

    def message(name, lay):
        tname, tree = tree_of(name)
        k = len(wire.units_of(tree))
        return tname, tree, wire.message(tree, [Plan(), Plan(seg={i: i % 2 for i in range(k)}, nseg=2)][lay])

    def load(tname, tree, buf):
        """-> [(path, kind, node or None, object)]"""
        root = capnpy.loads(buf, view.cls(S.byname[tname]))
        objs = []
        for path, n, o, t in walk(view, tname, root, tree, tname, groups=True):
            objs.append((path, 'struct', n, o))
            tag = None
            for f in n.fields:
                if f.group is not None or not f.type.is_ptr() or f.disc != 0xffff:
                    continue
                v = getattr(o, pyname(f.name))
                if isinstance(v, List):
                    objs.append(('%s.%s' % (path, f.name), 'list', f, v))
                elif isinstance(v, AnyPointer):
                    objs.append(('%s.%s' % (path, f.name), 'any', f, v))
        return root, objs

    def assign(o, name, v):
        setattr(o, name, v)

    OPSTRUCT = {}

    def struct_ops(n, o):
        """[(name, function of the object)]"""
        key = (n.id,)
        if key in OPSTRUCT:
            return OPSTRUCT[key]
        ops = []
        for f in n.fields:
            py = pyname(f.name)
            ops.append(('read ' + py, lambda o, py=py: getattr(o, py)))
            ops.append(('set ' + py, lambda o, py=py: assign(o, py, None)))
            ops.append(('del ' + py, lambda o, py=py: delattr(o, py)))
            if f.group is None and f.type.is_ptr():
                ops.append(('has_' + py, lambda o, py=py: getattr(o, 'has_' + py)()))
                if f.type.kind != 'anyPointer':
                    ops.append(('get_' + py, lambda o, py=py: getattr(o, 'get_' + py)()))
            if f.disc != 0xffff:
                ops.append(('is_' + py, lambda o, py=py: getattr(o, 'is_' + py)()))
        ops += [('which', lambda o: o.which()), ('__which__', lambda o: o.__which__()), ('str', str), ('repr', repr), ('shortrepr', lambda o: o.shortrepr()),
                ('dumps', lambda o: o.dumps()), ('dumps slow', lambda o: o.dumps(fastpath=False)), ('compact', lambda o: o.compact()), ('hash', hash),
                ('pickle', lambda o: pickle.loads(pickle.dumps(o, 2))), ('copy', copy.copy), ('deepcopy', copy.deepcopy), ('raw', lambda o: type(o)._raw_loads(o._raw_dumps())),
                ('==', lambda o: o == o), ('!= dumps', lambda o: o != o.compact()), ('<', lambda o: o < o), ('== tuple', lambda o: o == (1,)),
                ('buf_range', lambda o: o._get_body_range() if hasattr(o, '_get_body_range') else None), ('is_compact', lambda o: o._is_compact())]

        def dump(o):
            b = io.BytesIO()
            capnpy.dump(o, b)
            return b.getvalue()
        ops.append(('dump', dump))
        parents = {'Inner': ('One', 'p', 'LayC', 'linner'), 'Leaf': ('PtrOnly', 'p', 'LayC', 'lleaf'), 'Tree': ('Tree', 'left', 'Tree', 'kids'), 'Names': ('Two', 'q', 'LayN', 'lnames'),
                   'KLeaf': ('Keyed', 'leaf', None, None), 'Empty': ('LayE', 'empty', 'LayE', 'lempty')}
        if n.name in parents:
            a, fa, b, fb = parents[n.name]
            ops.append(('as a field', lambda o: view.cls(S.byname[a])(**{fa: o})))
            if b:
                ops.append(('as an item', lambda o: view.cls(S.byname[b])(**{fb: [o, o]})))
        OPSTRUCT[key] = ops
        return ops

    def list_ops(f, lst):
        def setitem(o):
            o[0] = o[0]

        def delitem(o):
            del o[0]

        def setslice(o):
            o[0:1] = []
        ops = [('len', len), ('[0]', lambda o: o[0]), ('[-1]', lambda o: o[-1]), ('[9]', lambda o: o[9]), ('[:]', lambda o: o[:]), ('[::-1]', lambda o: o[::-1]), ('list', list),
               ('reversed', lambda o: list(reversed(o))), ('in', lambda o: o[0] in o), ('==', lambda o: o == o), ('== list', lambda o: o == list(o)), ('!=', lambda o: o != [1]),
               ('repr', repr), ('shortrepr', lambda o: o.shortrepr()), ('hash', hash), ('set item', setitem), ('del item', delitem), ('set slice', setslice),
               ('append', lambda o: o.append(1)), ('sort', lambda o: o.sort()), ('sorted', lambda o: sorted(o, key=repr)), ('iadd', lambda o: operator.iadd(o, [1])),
               ('pickle', lambda o: pickle.dumps(o))]
        py = pyname(f.name)
        owner = {'linner': 'LayC', 'lleaf': 'LayC', 'li32': 'LayL', 'lvoid': 'LayL', 'lli16': 'LayN', 'lltext': 'LayN', 'llinner': 'LayN', 'lnames': 'LayN', 'kids': 'Tree',
                 'c': 'Inner', 'lempty': 'LayE'}.get(f.name, 'Ptrs')
        if f.name in S.byname[owner].byname:
            ops.append(('as an argument', lambda o: view.cls(S.byname[owner])(**{py: o})))
        return ops

    def any_ops(f, a):
        return [(q, lambda a, q=q: getattr(a, q)()) for q in ('is_struct', 'is_list', 'is_text', 'is_data', 'dumps')] + {
            'anyInner': [('as_struct', lambda a: a.as_struct(mod.Inner))], 'anyText': [('as_text_bytes', lambda a: a.as_text_bytes()), ('as_text_unicode', lambda a: a.as_text_unicode())],
            'anyList': [('as_list', lambda a: a.as_list(Types.int16))]}[f.name]
    KINDS = {'struct': struct_ops, 'list': list_ops, 'any': any_ops}

    def all_ops(objs):
        """[(index of the object, name, function)]"""
        out = []
        seen = {}
        for i, (path, kind, n, o) in enumerate(objs):
            seen[kind, n.name] = seen.get((kind, n.name), 0) + 1
            if not th and seen[kind, n.name] > 2:
                continue
            for name, fn in KINDS[kind](n, o):
                out.append((i, '%s: %s' % (path, name), fn))
        return out

    REF = {}

    def reference(name, lay):
        """the result of every operation, alone on a fresh message"""
        if (name, lay) not in REF:
            tname, tree, buf = message(name, lay)
            n = len(all_ops(load(tname, tree, buf)[1]))
            res = []
            for k in range(n):
                root, objs = load(tname, tree, buf)
                i, what, fn = all_ops(objs)[k]
                res.append(outcome(lambda: fn(objs[i][3])))
            REF[name, lay] = res
        return REF[name, lay]

    def histories(name):
        def fn(c):
            lay = c.choose(2) if th or name != 'Ptrs' else 1
            tname, tree, buf = message(name, lay)
            ref = reference(name, lay)
            root, objs = load(tname, tree, buf)
            ops = all_ops(objs)
            k = c.choose(len(ops))
            i, first, f = ops[k]
            got = outcome(lambda: f(objs[i][3]))
            c.check(got == ref[k], '%s: %s instead of %s' % (first, short(got), short(ref[k])))
            verb = first.split(': ')[1].split(' ')[0]
            if verb in ('set', 'del', 'append', 'sort'):
                c.check(got[0] == 'raises', '%s was accepted: %s' % (first, short(got)))
            c.state(name, lay, k)
            view.check_struct(c, S.byname[tname], root, tree, '%s after %s' % (tname, first))
            c.check(root._seg.buf == capnpy.loads(buf, view.cls(S.byname[tname]))._seg.buf, 'the buffer changed after %s' % first)
            for m, (j, what, g) in enumerate(ops):
                if not th and m % 3 != k % 3 and j not in (0, i):
                    continue
                if th:
                    root, objs = load(tname, tree, buf)
                    outcome(lambda: f(objs[i][3]))
                got = outcome(lambda: g(objs[j][3]))
                c.check(got == ref[m], '%s, after %s: %s instead of %s' % (what, first, short(got), short(ref[m])))
            view.check_struct(c, S.byname[tname], root, tree, '%s after %s and everything else' % (tname, first))
        return fn

    # ---- preemption, line by line
    def preempted(name):
        def fn(c):
            tname, tree, buf = message(name, 1)
            ref = reference(name, 1)
            root, objs = load(tname, tree, buf)
            ops = all_ops(objs)
            k = c.choose(len(ops))
            i, first, f = ops[k]
            o = objs[i][3]
            others = [m for m, (j, w, g) in enumerate(ops) if th or j == i or j == 0 or m % 5 == k % 5]
            # count the lines
            lines = [0]
            bad = []
            target = [-1]
            which = [None]

            def tracer(frame, event, arg):
                fname = frame.f_code.co_filename
                if 'capnpy' not in fname and 'zoo' not in fname:
                    return None
                if event == 'line':
                    if lines[0] == target[0]:
                        target[0] = -1
                        sys.settrace(None)
                        m = which[0]
                        j, w, g = ops[m]
                        got = outcome(lambda: g(objs[j][3]))
                        if got != ref[m]:
                            bad.append('%s, while running %s (line %d): %s instead of %s' % (w, first, lines[0], short(got), short(ref[m])))
                        sys.settrace(tracer)
                    lines[0] += 1
                return tracer

            def traced():
                lines[0] = 0
                sys.settrace(tracer)
                try:
                    return f(o)
                finally:
                    sys.settrace(None)
            got = outcome(traced)
            c.check(got == ref[k], '%s: %s' % (first, short(got)))
            total = lines[0]
            # every line; the other operations take turns unless thorough
            step = 1 if th or total < 40 else 5 if name == 'Ptrs' else 2
            for at in range(k % step, total, step):
                for t in (others if th else [others[(at + k) % len(others)], others[(3 * at + 1) % len(others)]]):
                    target[0], which[0] = at, t
                    got = outcome(traced)
                    c.check(got == ref[k], '%s, preempted at line %d by %s: %s instead of %s' % (first, at, ops[t][1], short(got), short(ref[k])))
                    if bad:
                        c.fail(bad[0])
                c.state('preempt', name, k, at)
            view.check_struct(c, S.byname[tname], root, tree, '%s after %s' % (tname, first))
        return fn

    if ctx.mode == 'pure':
        for name in NAMES[1:] + NAMES[:1]:
            ctx.explore('preempted/' + name, preempted(name), shard_depth=1)
        return
    for name in NAMES:
        ctx.explore('histories/' + name, histories(name), shard_depth=2)

    # ---- constructor arguments are left alone
    def arguments(c):
        inner = mod.Inner(a=1, b=b'x', c=[5])
        leaf = mod.Leaf(x=1)
        cases = [
            (mod.Ptrs, dict(li32=[3, 1, 2])), (mod.Ptrs, dict(ltext=[b'a', b'b'])), (mod.Ptrs, dict(linner=[inner, mod.Inner(), inner])), (mod.Ptrs, dict(lli16=[[1, 2], [], [3]])),
            (mod.Ptrs, dict(llinner=[[inner], []])), (mod.Ptrs, dict(lltext=[[b'q'], []])), (mod.Ptrs, dict(lcolor=[0, mod.Color.blue])), (mod.Ptrs, dict(lf64=[1.5, 2])),
            (mod.Ptrs, dict(text=b'tt', text_u=u'\xe9', data=b'\0', inner=inner, leaf=leaf)), (mod.Grp, dict(g=[1, b'n', leaf, [2, [4, 5]]])),
            (mod.Grp, dict(g=(1, b'n', leaf, (2, (4, 5))))), (mod.LayC, dict(linner=(inner, inner), lleaf=[leaf])), (mod.Ptrs, dict(li32=mod.Inner(c=[1]).c and [7])),
            (mod.LayC, dict(linner=mod.LayC(linner=[inner]).linner)), (mod.Tree, dict(kids=[mod.Tree(val=1), mod.Tree(kids=[mod.Tree()])]))]
        cls, kw = c.pick(cases)
        before = {k: val(v) for k, v in kw.items()}
        ids = {k: [id(x) for x in v] for k, v in kw.items() if isinstance(v, list)}
        a = cls(**kw)
        first = a.dumps()
        for k, v in kw.items():
            c.eq(val(v), before[k], 'the argument %s was changed' % k)
            if k in ids:
                c.eq([id(x) for x in v], ids[k], 'the items of the argument %s were replaced' % k)
        # the object does not alias its arguments
        for v in kw.values():
            if isinstance(v, list):
                for x in list(v):
                    if isinstance(x, list):
                        del x[:]
                del v[:]
        c.eq(a.dumps(), first, 'the object depends on the argument')
        c.state(cls.__name__, first)
    ctx.explore('arguments', arguments)

    # ---- the objects do not alias what they are loaded from
    def sources(c):
        tname, tree, buf = message('Tree', c.choose(2))
        how = c.choose(4)
        if how == 0:
            f = io.BytesIO(buf + b'\xff' * 16)
            o = capnpy.load(f, mod.Tree)
            f.seek(0)
            f.write(b'\xee' * len(buf))
        elif how == 1:
            f = io.BytesIO(buf * 3)
            o = list(capnpy.load_all(f, mod.Tree))[1]
            f.seek(0)
            f.write(b'\xee' * 3 * len(buf))
        elif how == 2:
            from capnpy.segment.builder import SegmentBuilder
            o = capnpy.loads(buf, mod.Tree).compact()
        else:
            o = mod.Tree(val=9, left=capnpy.loads(buf, mod.Tree)).left
        view.check_struct(c, S.byname[tname], o, tree, 'Tree')
        c.state('sources', how)
    ctx.explore('sources', sources)
