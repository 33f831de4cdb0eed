"""C06: malformed messages give values made of their own bytes or ordinary exceptions."""
import pickle
import struct
import sys
import threading

from mc import wire
from mc.wire import p_struct, p_list, p_far, p_cap, pack_ptr
from mc.view import View, pyname
from mc.explore import Violation

MODES = ('asan', 'pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'asan': 3, 'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'asan': 4, 'cpy': 1, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': 'one pointer slot read as each of 27 types x every word of an adversarial pointer alphabet (all kinds, offsets, sizes, list tags, '
             'counts, far pads) x second word x third word, in one or two segments; hostile roots; every one-word corruption and every '
             'truncation of valid messages of 14 shapes; chains and cycles of up to 200000 pointers; each followed by '
             'every public operation (read, iterate, slice, print, hash, compare, dump, compact, embed, pickle)',
    'thorough': 'as quick with larger alphabets for the second and third word, and every two-word corruption'}
ASSUMPTIONS = ['memory errors are observed by AddressSanitizer in the asan mode (capnpy rebuilt with it) and as crashes in the other ones',
               'time and memory proportional to the number of (possibly aliased, possibly zero-sized) items a message declares are not bounded by '
               'the property: operations that visit more than 1000 declared items are skipped']

BIG = (1 << 29) - 1


def words_alphabet(n, size):
    """pointer words; n is the number of words which follow the word"""
    offs = {'full': [-1, 0, 1, n - 1, n, n + 1, -2, -3, -4, -8, BIG, -BIG - 1, 1000],
            'mid': [-1, 0, 1, n - 1, -3], 'small': [0, -2], 'tiny': [0]}[size]
    offs = sorted(set(offs))
    sizes = {'full': [(0, 0), (1, 0), (0, 1), (1, 1), (1, 3), (2, 0), (65535, 0), (0, 65535), (65535, 65535)],
             'mid': [(0, 0), (1, 0), (0, 1), (1, 3), (65535, 65535)], 'small': [(1, 1), (0, 1)], 'tiny': [(0, 1)]}[size]
    counts = {'full': [0, 1, 2, 7, 8, 9, 17, 64, BIG], 'mid': [0, 1, 9, BIG], 'small': [1, BIG], 'tiny': [8]}[size]
    tags = {'full': range(8), 'mid': (0, 1, 2, 5, 6, 7), 'small': (2, 6, 7), 'tiny': (2,)}[size]
    out = [0, (1 << 64) - 1]
    for o in offs:
        for dw, pw in sizes:
            if (dw, pw) == (0, 0) and o > 100:
                continue              # would declare 2**29 items when read as the tag of a list
            out.append(p_struct(o, dw, pw))
    for o in offs:
        for t in tags:
            for k in counts:
                out.append(p_list(o, t, k))
    fo = {'full': [0, 1, 2, 3, n, BIG], 'mid': [0, 1, 3], 'small': [0, 2], 'tiny': []}[size]
    fs = {'full': [0, 1, 2, 2 ** 32 - 1], 'mid': [0, 1], 'small': [0, 1], 'tiny': []}[size]
    for d in (0, 1):
        for o in fo:
            for s in fs:
                out.append(p_far(d, o, s))
    if size in ('full', 'mid'):
        out += [p_cap(0), p_cap(2 ** 32 - 1), 0x1111111111111103]
        out += [0x6f6c6c6568, 0xffffffff, 0x8000000000000000]
    res = []
    for w in out:
        w &= (1 << 64) - 1
        if w not in res:
            res.append(w)
    return res


def frame_words(segs):
    out = struct.pack('<I', len(segs) - 1) + b''.join(struct.pack('<I', len(s)) for s in segs)
    if len(out) % 8:
        out += b'\0' * 4
    return out + b''.join(struct.pack('<%dQ' % len(s), *s) for s in segs)


def cost(segs, hint=False, budget=3000, maxdepth=60):
    """an upper bound of the number of objects and items visited by a traversal of the message (which may alias and loop), up to the budget"""
    n, deepest, many = [0], [0], [0]
    # lists read as lists of voids have as many items as they say
    # (and PyPy's list comprehensions allocate memory for all of the items in advance)
    void = hint or any(w & 0xffff == 10 for s in segs for w in s)
    # capnpy checks the bounds of the message, not of the segment
    words = [w for s in segs for w in s]
    size = len(words)
    starts = [sum(map(len, segs[:i])) for i in range(len(segs))]

    class Over(Exception):
        pass

    def ptr(i, depth):
        n[0] += 1
        if n[0] > budget:
            raise Over
        deepest[0] = max(deepest[0], depth)
        if depth > maxdepth or not 0 <= i < size:
            return
        w = words[i]
        if w & 3 == 2:
            if w >> 32 >= len(segs):
                return
            pad = starts[w >> 32] + ((w >> 3) & BIG)
            if not w & 4:
                return ptr(pad, depth + 1)
            if not pad + 1 < size:
                return
            f, tag = words[pad], words[pad + 1]
            if f >> 32 >= len(segs):
                return
            return target(starts[f >> 32] + ((f >> 3) & BIG), tag, depth + 1)
        o = (w >> 2) & 0x3fffffff
        if o >> 29:
            o -= 1 << 30
        return target(i + 1 + o, w, depth + 1)

    def struct_(i, dw, pw, depth):
        n[0] += 1
        for k in range(min(pw, 80)):
            ptr(i + dw + k, depth + 1)

    def target(i, w, depth):
        if not w:
            return
        if w & 3 == 0:
            struct_(i, (w >> 32) & 0xffff, w >> 48, depth)
        elif w & 3 == 1:
            t, k = (w >> 32) & 7, w >> 35
            if void:
                many[0] = max(many[0], k)
            if t == 7:
                if not 0 <= i < size:
                    return
                g = words[i]
                dw, pw = (g >> 32) & 0xffff, g >> 48
                items = (g >> 2) & BIG
                if void:
                    many[0] = max(many[0], items)
                if (dw, pw) == (0, 0):
                    n[0] += items
                else:
                    n[0] += min(items, size * 8)
                if n[0] > budget:
                    raise Over
                for j in range(items if dw + pw else 0):
                    if i + 1 + j * (dw + pw) > size:
                        break
                    struct_(i + 1 + j * (dw + pw), dw, pw, depth + 1)
            elif t == 6:
                for j in range(k):
                    if not 0 <= i + j < size:
                        break
                    ptr(i + j, depth + 1)
            else:
                n[0] += k if t == 0 else min(k, size * 64 // (0, 1, 8, 16, 32, 64)[t])
                if n[0] > budget:
                    raise Over
    try:
        ptr(0, 0)
    except Over:
        return 'wide'
    return 'deep' if deepest[0] > maxdepth else 'long' if many[0] > 1000 else None


class Ops(object):
    """every public operation on an object, each in its own guard"""

    def __init__(self, ctx, mod, S, view):
        self.ctx, self.mod, self.S, self.view = ctx, mod, S, view
        self.pypy = ctx.mode == 'pypy'
        import capnpy
        from capnpy.type import Types
        self.capnpy, self.Types = capnpy, Types

    def guard(self, what, fn, *a):
        self.n += 1
        try:
            return fn(*a)
        except SystemError as e:
            raise Violation('%s: SystemError: %s' % (what, e), key='SystemError:' + what.split('.')[-1])
        except Violation:
            raise
        except Exception:
            return None

    def own(self, what, v):
        """bytes must come from the message"""
        if isinstance(v, bytes) and v and v not in self.raw:
            raise Violation('%s returned bytes which are not in the message: %r' % (what, v[:80]))
        return v

    def run(self, buf, tname, raw, wide, what):
        self.raw, self.wide, self.n, self.deep = raw, wide, 0, what == 'all'
        cls = self.view.cls(self.S.byname[tname])
        obj = self.guard('loads', self.capnpy.loads, buf, cls)
        if obj is not None:
            if what != 'copy':
                self.obj(tname, obj, 0)
                self.hashes(tname, obj)
                if not self.wide:
                    self.guard(tname + '.repr', repr, obj)
            if what != 'read' and self.wide in (None, 'long'):
                self.copies(tname, obj)
            if what == 'all' and not self.wide:
                self.misc(tname, obj)
        return self.n

    def copies(self, p, obj):
        g = self.guard
        cls = type(obj)
        for fast in (True, False):
            out = g(p + '.dumps', obj.dumps, fast)
            if out is not None and self.deep:
                new = g(p + '.loads', self.capnpy.loads, out, cls)
                if new is not None and not self.wide:
                    g(p + '.repr2', new.shortrepr)
        new = g(p + '.compact', obj.compact)
        if new is not None and self.deep and not self.wide:
            g(p + '.repr3', new.shortrepr)

    def misc(self, p, obj):
        g = self.guard
        g(p + '._is_compact', obj._is_compact)
        s = g(p + '.pickle', pickle.dumps, obj, 2)
        if s is not None:
            g(p + '.unpickle', pickle.loads, s)
        s = g(p + '._raw_dumps', obj._raw_dumps)
        if s is not None:
            g(p + '._raw_loads', type(obj)._raw_loads, s)
        g(p + '.eq', lambda: obj == obj)

    def hashes(self, p, obj):
        if not hasattr(type(obj), '_key'):
            return
        h = self.guard(p + '.hash', hash, obj)
        if h is not None:
            key = self.guard(p + '._key', obj._key)
            want = None
            if key is not None:
                want = self.guard(p + '.hash(_key)', hash, key)
            if want is not None and h != want:
                raise Violation('%s: hash() is %d but the hash of the key is %d' % (p, h, want))
        self.guard(p + '.eq', lambda: obj == obj)
        self.guard(p + '.eqt', lambda: obj == (1, b'x'))

    def obj(self, p, o, depth):
        n = self.S.byname[type(o).__name__]
        self.group(p, o, n, depth)
        if depth == 0:
            g = self.guard
            w = g(p + '.which', lambda: (o.__which__(), o.which(), str(o.which()), repr(o.which()))) if n.nunion else None

    def group(self, p, o, n, depth):
        g = self.guard
        for f in n.fields:
            py = pyname(f.name)
            q = p + '.' + py
            if f.disc != 0xffff:
                if not g(q + '.is', getattr(o, 'is_' + py)):
                    continue
            v = g(q, getattr, o, py)
            if f.group is not None:
                if v is not None:
                    self.group(q, v, self.S.nodes[f.group], depth)
                continue
            t = f.type
            if t.is_ptr():
                g(q + '.has', getattr(o, 'has_' + py))
                if hasattr(o, 'get_' + py):
                    v2 = g(q + '.get', getattr(o, 'get_' + py))
                    self.own(q + '.get', v2)
            if t.kind == 'enum':
                g(q + '.enum', lambda: (str(v), repr(v), v.name))
            self.own(q, v)
            if v is None:
                continue
            if t.kind == 'struct':
                if depth < 3:
                    self.obj(q, v, depth + 1)
                if depth == 0:
                    self.hashes(q, v)
                    if self.deep and not self.wide:
                        self.copies(q, v)
                        self.misc(q, v)
                    if f.disc != 0xffff and not self.wide:
                        g(q + '.embed', lambda: getattr(type(o), 'new_' + py)(v))
            elif t.kind == 'list':
                self.list(q, v, t.elem, depth)
                if depth == 0 and f.disc != 0xffff and not self.wide and self.moderate(q, v, t.elem):
                    g(q + '.embed', lambda: getattr(type(o), 'new_' + py)(v))
            elif t.kind == 'anyPointer':
                self.any(q, v)

    def moderate(self, p, v, e):
        """does the list (of lists) declare a moderate number of items?"""
        k = self.guard(p + '.len', len, v)
        if k is None or k > 1000:
            return False
        if e.kind == 'list':
            for x in self.guard(p + '.list', list, v) or ():
                if not self.moderate(p, x, e.elem):
                    return False
        return True

    def list(self, p, v, e, depth):
        g = self.guard
        k = g(p + '.len', len, v)
        items = []
        for i in (0, -1, 8):
            items.append(g('%s.item' % p, lambda: v[i]))
        x = g(p + '.slice', lambda: v[0:3])
        if x:
            items += x
        if k is not None and k <= 64:
            g(p + '.list', list, v)
            if not self.wide:
                g(p + '.shortrepr', v.shortrepr)
            if self.deep:
                g(p + '.in', lambda: 3 in v)
                g(p + '.eqlist', lambda: v == [0, 1])
        if k is not None and k <= 1000:
            g(p + '.eq', lambda: v == v)
        if self.deep:
            g(p + '.ne', lambda: v != v[0])
            g(p + '.repr', repr, v)
        for it in items:
            self.own(p + '[]', it)
            if it is None:
                continue
            if e.kind == 'struct' and depth < 2:
                self.obj(p + '[]', it, depth + 1)
                if depth == 0 and self.deep and not self.wide:
                    g(p + '[].dumps', it.dumps)
                    g(p + '[].compact', it.compact)
            elif e.kind == 'list':
                self.list(p + '[]', it, e.elem, depth + 1)
            elif e.kind == 'enum':
                g(p + '[].enum', lambda: (str(it), repr(it)))

    def any(self, p, v):
        g = self.guard
        for q in ('is_struct', 'is_list', 'is_text', 'is_data', 'as_data', 'as_text_bytes', 'as_text_unicode'):
            self.own(p + '.' + q, g(p + '.' + q, getattr(v, q)))
        for name in ('Tree', 'Leaf', 'Empty', 'TKey') if self.deep else ('Tree',):
            o = g(p + '.as_struct', v.as_struct, self.view.cls(self.S.byname[name]))
            if o is not None:
                self.obj(p + '.as_struct', o, 1)
        for t in ('int8', 'int64', 'void', 'bool') if self.deep else ('int16',):
            l = g(p + '.as_list', v.as_list, getattr(self.Types, t))
            if l is not None:
                g(p + '.as_list[]', lambda: (len(l), l[0], l[-1]))
        if not self.wide:
            g(p + '.dumps', v.dumps)


SIZES = {'quick': ('full', 'mid', 'tiny'), 'thorough': ('full', 'mid', 'small')}


def run(ctx):
    import capnpy
    S = ctx.schema('mal')
    mod = ctx.load('mal')
    view = View(S, mod)
    th = ctx.thorough
    ops = Ops(ctx, mod, S, view)
    nodes = S.byname['M']
    members = [f.disc for f in nodes.fields]

    def go(c, segs, tname='M', what='all', loops=False):
        buf = frame_words(segs)
        raw = b''.join(struct.pack('<%dQ' % len(s), *s) for s in segs)
        c.note(' / '.join(' '.join('%016x' % w for w in s) for s in segs))
        c.state(tname, buf)
        try:
            wide = cost(segs, ctx.mode == 'pypy')
            if wide == 'deep' and loops:
                wide = None
            if wide:
                ctx.count('messages too %s for whole traversals' % wide)
            n = ops.run(buf, tname, raw, wide, what)
        except Violation as e:
            e.msg += ' | segments %s' % ' / '.join(' '.join('%016x' % w for w in s) for s in segs)
            raise
        c.step(n)

    root = p_struct(0, 1, 1)
    A0 = words_alphabet(2, 'full')
    byname = {f.name: f.disc for f in nodes.fields}
    FULL = {byname[x] for x in ('text', 'tree', 'tkey', 'lbool', 'lu64', 'ltext', 'ltree', 'lli16', 'any')}
    fast = ctx.mode in ('cpy', 'pyx') or th

    # the pointer under test as the last word, read as every type
    def slot1(c):
        tag = c.pick(members)
        w = c.pick(A0 if th or tag in FULL else words_alphabet(2, 'mid'))
        segs = [[root, tag, w], [0x4141414141414141]] if w & 3 == 2 and c.flag() else [[root, tag, w]]
        go(c, segs, what='read')
    ctx.explore('slot/1', slot1, shard_depth=2)

    def copy1(c):
        w = c.pick(A0)
        n = c.choose(4)
        segs = [[root, 0, w]] if n == 0 else [[root, 0, w, 0]] if n == 1 else [[root, 0, w], [p_struct(0, 0, 1)]] if n == 2 else [[root, 0, w], [5, 0]]
        go(c, segs, what='copy', loops=True)
    ctx.explore('copy/1', copy1, shard_depth=1)

    PAY = [0, 0x4141414141414141, (1 << 64) - 1]
    MID = words_alphabet(1, 'mid')
    SMALL = words_alphabet(0, 'small')
    TINY = [p_struct(0, 0, 1), p_list(0, 2, 8), p_struct(1, 0, 1), p_list(-2, 6, 1) & (2 ** 64 - 1), p_struct(-3, 0, 1) & (2 ** 64 - 1), p_far(0, 2, 0)]
    # words whose target is (also) among the words after them
    REACH = [w for w in words_alphabet(2, 'mid') if w & 3 == 2 or w & 3 < 2 and (w >> 2) & 0x3fffffff in (0, 1) and (w >> 35) & BIG in (0, 1, 9)
             or w & 3 == 0 and (w >> 2) & 0x3fffffff == 0]

    def slot2(c):
        tag = c.pick(members)
        w = c.pick(A0 if th else MID)
        x = c.pick(MID if th else TINY + PAY)
        split = c.flag()
        if split and w & 3 != 2:
            return
        go(c, [[root, tag, w], [x]] if split else [[root, tag, w, x]], what='read')
    ctx.explore('slot/2', slot2, shard_depth=2)

    def slot3(c):
        tag = c.pick([f.disc for f in nodes.fields if f.type.kind in ('struct', 'anyPointer') or f.type.kind == 'list' and f.type.elem.is_ptr()])
        w = c.pick(MID if th else REACH)
        x = c.pick(SMALL + PAY if th else TINY)
        y = c.pick(TINY + PAY if th else TINY[:2] + PAY[1:2])
        how = c.choose(3)
        if how and w & 3 != 2:
            return
        go(c, {0: [[root, tag, w, x, y]], 1: [[root, tag, w], [x, y]], 2: [[root, tag, w, y], [x]]}[how], what='read')
    ctx.explore('slot/3', slot3, shard_depth=2)

    def copy3(c):
        w = c.pick(A0 if th else MID)
        x = c.pick(MID if th else SMALL + PAY)
        y = c.pick(SMALL + PAY if th else TINY + PAY[1:2])
        how = c.choose(3)
        if how and w & 3 != 2:
            return
        go(c, {0: [[root, 0, w, x, y]], 1: [[root, 0, w], [x, y]], 2: [[root, 0, w, y], [x]]}[how], what='copy')
    ctx.explore('copy/3', copy3, shard_depth=2)

    def roots(c):
        n = c.choose(3)
        w = c.pick(A0 if th or n == 0 else MID)
        x = c.pick([4, 0xffff, p_struct(0, 1, 1), p_list(0, 2, 8), p_far(0, 0, 0), p_far(0, 1, 0), p_far(1, 0, 0)]) if n else None
        y = c.pick([0, p_struct(-1, 0, 1), p_far(1, 0, 0)]) if n > 1 else None
        tname = c.pick(['M', 'Tree', 'TKey', 'Grp'] if th or n == 0 else ['M', 'TKey'])
        ws = [w, x, y][:n + 1]
        segs = [ws] if c.flag() else [[ws[0]], ws[1:]]
        go(c, segs, tname, loops=n < 2)
    ctx.explore('roots', roots, shard_depth=2)

    def tags(c):
        tag = c.pick([28, 29, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff])
        w = c.pick([0, p_struct(0, 1, 0), p_list(0, 2, 3)])
        go(c, [[root, tag | 0x1234 << 16, w, 5]])
        col = tag
        t = [root, 4, p_struct(0, 1, 3), col << 32, 0, 0, 0]
        go(c, [t])
        go(c, [[root, 16, p_list(0, 3, 4), col | col << 16]])
    ctx.explore('tags', tags)

    # ---- corruption of valid messages
    W = S.to_wire
    valid = [
        ('Tree', {'val': 1, 'name': b'nn', 'left': {'val': 2, 'name': b'x'}, 'kids': [{'val': 4}, {'name': b'five'}]}),
        ('Key', {'num': 1, 'text': b't', 'data': b'dd', 'textU': b'u', 'next': {'num': 2, 'text': b'q'}}),
        ('TKey', {'text': b'a', 'textU': b'b', 'data': b'c'}),
        ('Grp', {'g': {'a': b'a', 'h': {'z': {'name': b'n'}}}}),
        ('M', {'ltext': [b'one', b'', None]}),
        ('M', {'ldata': [b'1']}),
        ('M', {'lleaf': [{'x': 1}, {'x': 2}]}),
        ('M', {'ltree': [{'name': b'a'}, {'left': {}}]}),
        ('M', {'lli16': [[1, 2], [3]]}),
        ('M', {'lltext': [[b'a'], [b'bb', b'c']]}),
        ('M', {'llleaf': [[{'x': 1}], []]}),
        ('M', {'any': W('Tree', {'name': b'a', 'left': {}})}),
        ('M', {'m': {'m': {'text': b'deep'}}}),
        ('M', {'lbool': [True] * 9}),
    ]

    def words_of(t, lay):
        if lay == 0:
            plan = wire.Plan()
        elif lay == 1:
            plan = wire.Plan(seg={u.idx: u.idx % 2 for u in wire.units_of(t)}, nseg=2)
        else:
            plan = wire.Plan(far={u.idx: ('double', 1) for u in wire.units_of(t) if u.idx}, nseg=2)
        segs = wire.encode(t, plan)
        return [list(struct.unpack('<%dQ' % (len(s) // 8), s)) for s in segs]

    def corrupt1(c):
        tname, v = c.pick(valid)
        lay = c.choose(3)
        segs = words_of(W(tname, v), lay)
        pos = [(i, j) for i, s in enumerate(segs) for j in range(len(s))]
        i, j = c.pick(pos)
        n = len(segs[i]) - j - 1
        segs[i][j] = c.pick(words_alphabet(n, 'full' if th else 'mid' if not lay and tname in ('Key', 'Grp') else 'small') + PAY)
        go(c, segs, tname)
    ctx.explore('corrupt1', corrupt1, shard_depth=3)

    def bitflips(c):
        tname, v = c.pick(valid)
        segs = words_of(W(tname, v), c.choose(2))
        pos = [(i, j) for i, s in enumerate(segs) for j in range(len(s))]
        i, j = c.pick(pos)
        segs[i][j] ^= 1 << c.choose(64)
        go(c, segs, tname)
    if fast:
        ctx.explore('bitflips', bitflips, shard_depth=3)

    def corrupt2(c):
        tname, v = c.pick(valid if th else valid[2:4])
        segs = words_of(W(tname, v), 0)
        pos = [(i, j) for i, s in enumerate(segs) for j in range(len(s))]
        a = c.choose(len(pos))
        b = c.choose(len(pos))
        if b >= a:
            return
        for k in (a, b):
            i, j = pos[k]
            segs[i][j] = c.pick(words_alphabet(len(segs[i]) - j - 1, 'mid' if th else 'small')[2 if not th else 0:])
        go(c, segs, tname)
    if fast:
        ctx.explore('corrupt2', corrupt2, shard_depth=2)

    def truncate(c):
        tname, v = c.pick(valid)
        segs = words_of(W(tname, v), c.choose(3))
        i = c.choose(len(segs))
        k = c.choose(len(segs[i]) + 1)
        del segs[i][k:]
        go(c, segs, tname)
    ctx.explore('truncate', truncate, shard_depth=1)

    # ---- deep messages: chains and cycles
    def deep(c):
        n = c.pick([10, 100, 400, 3000, 20000, 200000] if ctx.mode not in ('pypy', 'asan') or th else [10, 100, 400, 3000])
        kind = c.pick(['tree', 'key', 'm', 'kids', 'cycle', 'kcycle', 'kidscycle', 'mcycle', 'far', 'farcycle'])
        if kind == 'tree':
            ws = [p_struct(0, 0, 2)] + [0, p_struct(0, 0, 2)] * n + [0, 0]
            tname = 'Tree'
        elif kind == 'key':
            ws = [p_struct(0, 0, 4)] + [0, 0, 0, p_struct(0, 0, 4)] * n + [0] * 4
            tname = 'Key'
        elif kind == 'm':
            ws = [p_struct(0, 1, 1)] + [27, p_struct(0, 1, 1)] * n + [0, 0]
            tname = 'M'
        elif kind == 'kids':
            # each tree has one kid
            ws = [p_struct(0, 0, 3)] + [0, 0, p_list(0, 7, 3), p_struct(1, 0, 3)] * n + [0] * 3
            tname = 'Tree'
        elif kind == 'cycle':
            ws, tname = [p_struct(0, 0, 3), p_struct(-1, 0, 3) & (2 ** 64 - 1), p_struct(-2, 0, 3), p_struct(-3, 0, 3)], 'Tree'
        elif kind == 'kcycle':
            ws, tname = [p_struct(0, 0, 4), 0, 0, 0, p_struct(-4, 0, 4)], 'Key'
        elif kind == 'kidscycle':
            ws, tname = [p_struct(0, 0, 3), 0, 0, p_list(0, 7, 6), p_struct(2, 0, 3), 0, 0, p_list(-4, 7, 6), 0, 0, p_list(-7, 7, 6)], 'Tree'
        elif kind == 'mcycle':
            ws, tname = [p_struct(0, 1, 1), 27, p_struct(-2, 1, 1)], 'M'
        elif kind == 'far':
            # far pointers to far pointers
            ws, tname = [p_struct(0, 0, 2), 0] + [p_far(0, 3 + i, 0) for i in range(n)] + [p_struct(0, 0, 2), 0, 0], 'Tree'
            segs = [ws, [0]]
        elif kind == 'farcycle':
            ws, tname = [p_struct(0, 0, 2), 0, p_far(0, 2, 0)], 'Tree'
        if 'cycle' in kind and n > 10:
            return
        ws = [w & (2 ** 64 - 1) for w in ws]
        segs = [ws] if 'far' not in kind else [ws, [0]]
        buf = frame_words(segs)
        obj = capnpy.loads(buf, view.cls(S.byname[tname]))
        c.state(kind, n)
        g = ops.guard
        ops.n = 0
        for what, f in [('dumps', obj.dumps), ('dumps slow', lambda: obj.dumps(False)), ('compact', obj.compact),
                        ('repr', lambda: repr(obj)), ('_is_compact', obj._is_compact), ('pickle', lambda: pickle.loads(pickle.dumps(obj, 2))),
                        ('hash', lambda: hash(obj)), ('eq', lambda: obj == obj), ('key', lambda: obj == obj._key()),
                        ('embed', lambda: view.cls(S.byname['M']).new_tree(obj)), ('embedkey', lambda: view.cls(S.byname['M']).new_key(obj))]:
            c.note(what)
            g(what, f)
        c.step(ops.n)
    ctx.explore('deep', deep, shard_depth=2)
    ctx.sample('executions by scenario: %r' % (dict(ctx.ex.scenarios),))
