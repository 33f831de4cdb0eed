"""C16: the message builder keeps every write and never overlaps allocations."""
import struct

from mc import wire
from mc.wire import St, Pl, Pp, Co

MODES = ('cpy', 'asan', 'pure', 'pypy')
SHARDS = {'quick': {'cpy': 1, 'pypy': 1, 'asan': 2, 'pure': 1}, 'thorough': {'cpy': 3, 'pypy': 3, 'asan': 2, 'pure': 2}}
BOUNDS = {
    'quick': 'every sequence of <=3 operations from an alphabet of 41 allocations, typed writes, texts and copies, each started from 8 fill levels '
             'around the growth steps of the buffer (4 initial capacities); every operation at each of 340 consecutive fill levels over 3 growth steps; '
             'every format x boundary value x position in 3 words; every bit x every byte value; every sequence of 8 bool writes',
    'thorough': 'as quick with sequences of 4 operations'}
ASSUMPTIONS = ['callers allocate whole words, write inside allocated regions and in the range of the format (C23 covers the others)',
               'the reference is a plain byte array; pointers are encoded by mc/wire.py']


class Model(object):
    """a builder next to the bytes it should contain"""

    def __init__(self, c, builder):
        self.c, self.b = c, builder
        self.m = bytearray()
        self.slots = []      # words where a pointer may be written
        self.segs = None

    def grew(self, pos, n, what):
        self.c.eq(pos, len(self.m), what + ': position')
        self.m += bytearray(n)

    def check(self, what):
        c, b = self.c, self.b
        c.eq(b.get_length(), len(self.m), what + ': length')
        got = b.as_string()
        if got != bytes(self.m):
            i = [x for x in range(min(len(got), len(self.m))) if got[x] != self.m[x]]
            c.fail('%s: content differs at %r (lengths %d and %d)' % (what, i[:4], len(got), len(self.m)))
        c.step()

    def word(self, pos, v):
        self.m[pos:pos + 8] = struct.pack('<Q', v & ((1 << 64) - 1))

    def alloc(self, n):
        self.grew(self.b.allocate(n), n, 'allocate(%d)' % n)

    def fill(self, nwords):
        if nwords:
            self.alloc(nwords * 8)

    def slot(self):
        """a word to write a pointer to: the first or the last one"""
        if not self.m:
            self.alloc(8)
        return self.c.pick(sorted(set([0, len(self.m) - 8])))

    def struct(self, pos, d, p):
        r = self.b.alloc_struct(pos, d, p)
        off = (len(self.m) - pos - 8) // 8
        self.grew(r, (d + p) * 8, 'alloc_struct(%d, %d, %d)' % (pos, d, p))
        self.word(pos, wire.p_struct(off, d, p))

    def list(self, pos, tag, count, body):
        r = self.b.alloc_list(pos, tag, count, body)
        off = (len(self.m) - pos - 8) // 8
        self.grew(r, (body + 7) // 8 * 8, 'alloc_list(%d, %d, %d, %d)' % (pos, tag, count, body))
        self.word(pos, wire.p_list(off, tag, count))

    def text(self, pos, s, is_text):
        r = self.b.alloc_text(pos, s) if is_text else self.b.alloc_data(pos, s)
        if s is None:
            self.c.eq(r, -1, 'alloc_text(None)')
            self.word(pos, 0)
            return
        n = len(s) + is_text
        off = (len(self.m) - pos - 8) // 8
        self.grew(r, (n + 7) // 8 * 8, 'alloc_text(%d, %r)' % (pos, s))
        self.word(pos, wire.p_list(off, 2, n))
        self.m[r:r + len(s)] = s

    def write(self, name, fmt, pos, v):
        getattr(self.b, 'write_' + name)(pos, v)
        self.m[pos:pos + struct.calcsize(fmt)] = struct.pack('<' + fmt, v)

    def generic(self, fmt, pos, v):
        self.b.write_generic(ord(fmt), pos, v)
        self.m[pos:pos + struct.calcsize(fmt)] = struct.pack('<' + fmt, v)

    def slice(self, pos, seg, buf, start, n):
        self.b.write_slice(pos, seg, start, n)
        self.m[pos:pos + n] = buf[start:start + n]

    def copy(self, pos, tree, plan=None):
        """copy_from_pointer of a whole object: checked through the independent decoder"""
        from capnpy.segment.segment import MultiSegment, Segment
        segs = wire.encode(tree, plan)
        buf = b''.join(segs)
        offs, o = [], 0
        for s in segs:
            offs.append(o)
            o += len(s)
        src = MultiSegment(buf, tuple(offs)) if len(segs) > 1 else Segment(buf)
        p = struct.unpack('<q', buf[:8])[0]
        before = len(self.m)
        self.b.copy_from_pointer(pos, src, p, 0)
        self.adopt(pos, before, tree, 'copy of %s at %d' % (short(tree), pos))

    def adopt(self, pos, before, tree, what):
        c = self.c
        got = self.b.as_string()
        c.eq(len(got), self.b.get_length(), what + ': length')
        mine = bytes(self.m)
        if got[:pos] != mine[:pos] or got[pos + 8:before] != mine[pos + 8:]:
            c.fail(what + ': changed what had been written before')
        # as a message whose root is that word
        dec = wire.Decoder([got], exact=True)
        try:
            x = dec.ptr(0, pos // 8, 0)
        except wire.WireError as e:
            c.fail('%s: invalid: %s' % (what, e))
        c.check(wire.canon(x) == wire.canon(tree), '%s: content is %s' % (what, short(x)))
        spans = sorted((a * 8, b * 8) for (s, a, b) in dec.extents)
        at = before
        for a, b in spans:
            if a < before:
                c.fail('%s: refers to bytes %d-%d, allocated before' % (what, a, b))
            if a != at:
                c.fail('%s: gap or overlap at %d (expected %d)' % (what, a, at))
            at = b
        c.eq(at, len(got), what + ': end of the copied object')
        self.m = bytearray(got)


def short(t):
    s = repr(t)
    return s if len(s) < 80 else s[:80] + '...'


def raw(tag, count):
    return bytes(bytearray((7 * i + 1) & 0xff for i in range(wire.raw_len(tag, count))))


def trees():
    leaf = St(b'\x01\x02\x03\x04\x05\x06\x07\x08', [wire.text(b'hello')])
    inner = St(b'\x10' * 16, [wire.text(b'a' * 24), Pl(5, 3, raw(5, 3))])
    return [leaf, St(b'', [leaf, None, inner]), St(b'\xff' * 8, [Co(1, 1, [leaf] * 3)]), St(b'', [Pp([wire.text(b'x' * n) for n in (0, 7, 8, 300)])]),
            St(b'', [Pl(2, 600, raw(2, 600))]), St(b'\x07' * 520, []), St(b'', [St(b'', []), Co(0, 0, []), Pl(1, 9, b'\xff\x01')]),
            St(b'\x01' * 8, [St(b'\x02' * 8, [St(b'\x03' * 8, [St(b'\x04' * 8, [wire.text(b'deep')])])])]),
            St(b'', [Co(2, 2, [inner] * 20)])]


INTS = [('int8', 'b'), ('uint8', 'B'), ('int16', 'h'), ('uint16', 'H'), ('int32', 'i'), ('uint32', 'I'), ('int64', 'q'), ('uint64', 'Q')]
FLOATS = [('float32', 'f'), ('float64', 'd')]


def values(fmt):
    if fmt in 'fd':
        return [0.0, -0.0, 1.5, -2.25, float('inf'), float('-inf'), 2.0 ** 100]
    n = struct.calcsize(fmt) * 8
    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if fmt.islower() else (0, (1 << n) - 1)
    return [0, 1, lo, lo + 1, hi, hi - 1, hi // 3]


def run(ctx):
    from capnpy.segment.builder import SegmentBuilder
    from capnpy.segment.segment import Segment
    from capnpy.list import PrimitiveItemType, TextItemType, StructItemType
    compiled = ctx.mode in ('cpy', 'asan')
    TREES = trees()
    SRC = bytes(bytearray((i * 11 + 3) & 0xff for i in range(1400)))
    SEG = Segment(SRC)

    def last(m, size):
        """positions to write to: the first and the last word, or unaligned in the middle"""
        n = len(m.m)
        return sorted(set([0, n - size, (n // 2) // size * size]))

    OPS = []
    def op(name, f):
        OPS.append((name, f))
    for n in (0, 8, 504, 512, 520, 2048):
        op('allocate(%d)' % n, lambda m, n=n: m.alloc(n))
    for d, p in ((0, 0), (1, 0), (0, 1), (2, 3), (60, 5), (200, 100)):
        op('alloc_struct(%d, %d)' % (d, p), lambda m, d=d, p=p: m.struct(m.slot(), d, p))
    for tag, count, body in ((0, 5, 0), (1, 9, 2), (2, 1, 1), (2, 7, 7), (2, 8, 8), (3, 5, 10), (4, 3, 12), (5, 64, 512), (6, 2, 16), (7, 4, 40), (2, 1500, 1500)):
        op('alloc_list(%d, %d, %d)' % (tag, count, body), lambda m, t=tag, k=count, b=body: m.list(m.slot(), t, k, b))
    for s in (None, b'', b'abcdefg', b'abcdefgh', b'\x00\xff' * 255):
        op('alloc_text(%r)' % (s and s[:8]), lambda m, s=s: m.text(m.slot(), s, 1))
        op('alloc_data(%r)' % (s and s[:8]), lambda m, s=s: m.text(m.slot(), s, 0))
    def wr(name, fmt, v):
        def f(m):
            if not m.m:
                m.alloc(8)
            m.write(name, fmt, m.c.pick(last(m, struct.calcsize(fmt))), v)
        return f
    op('write_int64', wr('int64', 'q', 0x1122334455667788))
    op('write_uint8', wr('uint8', 'B', 0xee))
    def sl(m):
        if not m.m:
            m.alloc(8)
        n = len(m.m)
        m.slice(m.c.pick([0, n // 2]), SEG, SRC, 5, min(n - n // 2, 900))
    op('write_slice', sl)
    for i in (0, 1, 3, 7):
        op('copy(%d)' % i, lambda m, i=i: m.copy(m.slot(), TREES[i]))
    CAPS = [None, 0, 8, 1280] if compiled else [None]

    def new(c, cap):
        return Model(c, SegmentBuilder() if cap is None else SegmentBuilder(cap))

    # ---- sequences of operations
    # (the buffer of 512 bytes grows to 1280, 2432, ... )
    small = OPS
    if not ctx.thorough:
        # sequences of 2 over the whole alphabet, of 3 over the operations which allocate differently
        keep = ['allocate(8)', 'allocate(504)', 'alloc_struct(2, 3)', 'alloc_struct(0, 0)', 'alloc_list(2, 7, 7)', 'alloc_list(5, 64, 512)', "alloc_text(None)",
                "alloc_text(b'abcdefgh')", 'write_int64', 'write_slice', 'copy(1)']
        small = [o for o in OPS if o[0] in keep]
        assert len(small) == len(keep), [o[0] for o in OPS]

    def sequences2(c):
        m = new(c, c.pick(CAPS))
        i = c.choose(len(OPS))
        m.fill(c.pick([0, 1, 56, 62, 63, 64, 159, 160]))
        for k in range(2):
            name, f = OPS[i] if k == 0 else OPS[c.choose(len(OPS))]
            c.note(name)
            f(m)
            m.check(name)
            c.state(k, bytes(m.m))
    ctx.explore('sequences-2', sequences2, shard_depth=2)

    def sequences3(c):
        i = c.choose(len(small))
        m = new(c, c.pick(CAPS))
        m.fill(c.pick([0, 1, 62, 63, 64, 160] if ctx.thorough else [0, 62, 64]))
        for k in range(4 if ctx.thorough else 3):
            name, f = small[i] if k == 0 else small[c.choose(len(small))]
            c.note(name)
            f(m)
            m.check(name)
            c.state(k, bytes(m.m))
    if ctx.thorough:
        small = [o for o in OPS if o[0] not in ('alloc_struct(200, 100)', 'alloc_list(1, 9, 2)', 'alloc_list(3, 5, 10)', 'alloc_list(4, 3, 12)')][::2]
    ctx.explore('sequences-3', sequences3, shard_depth=2)

    # ---- every operation at every fill level: the growth happens at every point of it
    def levels(c):
        level = c.choose(340)
        m = new(c, c.pick(CAPS[:2]))
        m.fill(level)
        if level:
            m.write('int64', 'q', 0, -2)
            m.write('int64', 'q', level * 8 - 8, 0x7766554433221100)
        name, f = OPS[c.choose(len(OPS))]
        c.note(name)
        f(m)
        m.check(name)
        m.alloc(8)
        m.check('allocate(8)')
        c.state(bytes(m.m))
    ctx.explore('levels', levels, shard_depth=1)

    def copies(c):
        level = c.choose(340)
        t = c.pick(TREES)
        m = new(c, None)
        m.fill(level)
        m.alloc(8)
        m.write('int64', 'q', 0, -2)
        m.copy(level * 8, t)
        m.alloc(16)
        m.check('allocate(16)')
        c.state(level, wire.canon(t).key() if hasattr(wire.canon(t), 'key') else repr(t))
    ctx.explore('copies', copies, shard_depth=1)

    # ---- Python lists, written item by item while the buffer grows
    mod = ctx.load('zoo')
    names = mod.Names(s=b'abc', d=b'defghij')
    INNER = mod.Inner(a=5, b=b'x' * 20, c=[1, 2, 3], d=9)

    def lists(c):
        level = c.choose(200) * 2 + c.choose(2)
        kind = c.choose(4)
        m = new(c, None)
        m.fill(level)
        m.alloc(8)
        pos = level * 8
        n = c.pick([0, 1, 40])
        before = len(m.m)
        if kind == 0:
            lst = [-3 * i for i in range(n)]
            m.b.copy_from_list(pos, PrimitiveItemType(mod_type('int32')), lst)
            want = Pl(4, n, b''.join(struct.pack('<i', x) for x in lst))
        elif kind == 1:
            lst = [b't' * (i % 17) for i in range(n)]
            m.b.copy_from_list(pos, TextItemType(mod_type('text')), lst)
            want = Pp([wire.text(x) for x in lst])
        elif kind == 2:
            lst = [names] * n
            m.b.copy_from_list(pos, StructItemType(mod.Names), lst)
            want = Co(0, 2, [St(b'', [wire.text(b'abc'), wire.data(b'defghij')])] * n)
        else:
            lst = [INNER] * n
            m.b.copy_from_list(pos, StructItemType(mod.Inner), lst)
            want = Co(1, 2, [St(struct.pack('<iBxxx', 5, 9 ^ 7), [wire.text(b'x' * 20), Pl(3, 3, struct.pack('<hhh', 1, 2, 3))])] * n)
        m.adopt(pos, before, want, 'list of %d items (kind %d) at %d' % (n, kind, pos))
        m.alloc(8)
        m.check('allocate(8)')

    def mod_type(kind):
        from capnpy.type import Types
        return getattr(Types, kind)
    ctx.explore('lists', lists, shard_depth=1)

    # ---- writers
    def writers(c):
        name, fmt = c.pick(INTS + FLOATS)
        size = struct.calcsize(fmt)
        fill = c.pick([0, 0xff, 0x5a])
        pos = c.choose(24 // size) * size
        for v in values(fmt):
            for how in (0, 1):
                m = new(c, None)
                m.alloc(24)
                for i in range(24):
                    m.write('uint8', 'B', i, fill)
                if how:
                    m.generic(fmt, pos, v)
                else:
                    m.write(name, fmt, pos, v)
                m.check('write_%s%s(%d, %r)' % (name, ' (generic)' if how else '', pos, v))
                c.state(bytes(m.m))
    ctx.explore('writers', writers)

    def bools(c):
        byte, bit, val, at = c.choose(256), c.choose(8), c.choose(2), c.choose(3)
        m = new(c, None)
        m.alloc(8)
        for i in range(8):
            m.write('uint8', 'B', i, 0x33)
        m.write('uint8', 'B', at * 3, byte)
        m.b.write_bool(at * 3, bit, bool(val))
        if val:
            m.m[at * 3] |= 1 << bit     # fields start zeroed: only true is ever to be written
        elif byte >> bit & 1:
            return
        m.check('write_bool(%d, %d, %d) on %#x' % (at * 3, bit, val, byte))
        c.state(bytes(m.m))
    ctx.explore('bools', bools)

    def slices(c):
        n = c.pick([0, 1, 7, 8, 9, 64, 1300])
        start = c.pick([0, 1, 8, 100])
        level = c.pick([0, 1, 8, 500])
        m = new(c, None)
        m.alloc(level + (n + 15) // 8 * 8)
        for i in range(level + (n + 15) // 8 * 8):
            m.write('uint8', 'B', i, 0x77)
        if n:
            m.slice(level, SEG, SRC, start, n)
        m.check('write_slice(%d, %d, %d)' % (level, start, n))
        c.state(bytes(m.m))
    ctx.explore('slices', slices)

    def fails(c):
        n = c.pick([1 << 40, 1 << 45, 1 << 62, (1 << 62) + 8])
        m = new(c, None)
        m.fill(c.pick([0, 1, 64]))
        try:
            m.b.allocate(n)
        except (MemoryError, OverflowError, ValueError):
            c.step()
            return
        c.fail('allocate(%d) succeeded' % n)
    if ctx.mode != 'pypy':
        ctx.explore('impossible allocations', fails)
    ctx.sample('operations: %s' % ', '.join(n for n, _ in OPS))
