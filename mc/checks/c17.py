"""C17: pointer words and primitives follow the specification, in both implementations."""
import struct

from mc import wire

MODES = ('cpy', 'pure', 'pypy')
SHARDS = {'quick': {'cpy': 1, 'pypy': 1}, 'thorough': {'cpy': 2, 'pypy': 2, 'pure': 2}}
BOUNDS = {
    'quick': 'every pointer kind x every combination of boundary and power-of-two values of each field (16-bit sizes, signed 30-bit offsets, '
             '29-bit counts and pad offsets, 32-bit targets), each word unpacked by every accessor and re-packed; every single-bit and two-bit word; '
             'every primitive format x buffers of 0-17 bytes x every offset from -9 to 26 and the limits of 32 and 64 bits x 6 fill patterns; '
             'packing of boundary values at every offset; list item lengths; rounding of 0-4096',
    'thorough': 'as quick with all three-bit words and larger value sets'}
ASSUMPTIONS = ['the specification is the pointer layout of the Cap\'n Proto encoding document, implemented independently in mc/wire.py; '
               'primitives are those of the struct module']
M = (1 << 64) - 1


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def bound(bits, sgn):
    vals = set([0, 1, 2, 3, 5])
    for k in range(bits - (1 if sgn else 0)):
        vals |= set([1 << k, (1 << k) - 1, (1 << k) + 1])
    hi = (1 << (bits - 1)) - 1 if sgn else (1 << bits) - 1
    lo = -hi - 1 if sgn else 0
    vals |= set([hi, hi - 1])
    if sgn:
        vals |= set(-v for v in vals) | set([lo, lo + 1])
    return sorted(v for v in vals if lo <= v <= hi)


def run(ctx):
    from capnpy import ptr, packing
    from capnpy.segment.base import BaseSegmentForTests, unpack_uint32
    th = ctx.thorough
    O30, C16, C29, T32 = bound(30, True), bound(16, False), bound(29, False), bound(32, False)
    if not th:
        o30 = [v for i, v in enumerate(O30) if i % 5 == 0 or abs(v) < 4 or abs(v) > (1 << 29) - 3]
        c16 = [v for i, v in enumerate(C16) if i % 2 == 0 or v > 65533 or v < 3]
        c29 = C29
    else:
        o30, c16, c29 = O30, C16, C29

    def accessors(c, w):
        """the word w (unsigned), through every accessor"""
        p = signed(w, 64)
        for x in set([p, w]) if ctx.mode != 'cpy' else [p]:
            kind = w & 3
            c.eq(ptr.kind(x) & 3, kind, 'kind(%#x)' % w)
            off = signed(w >> 2, 30)
            c.eq(ptr.offset(x), off, 'offset(%#x)' % w)
            c.eq(ptr.extra(x) & 0xffffffff, w >> 32, 'extra(%#x)' % w)
            for base in (0, 8, 1024, 1 << 31):
                c.eq(ptr.deref(x, base), base + (off + 1) * 8, 'deref(%#x, %d)' % (w, base))
            c.eq(ptr.struct_data_size(x), (w >> 32) & 0xffff, 'struct_data_size(%#x)' % w)
            c.eq(ptr.struct_ptrs_size(x), w >> 48, 'struct_ptrs_size(%#x)' % w)
            c.eq(ptr.list_size_tag(x), (w >> 32) & 7, 'list_size_tag(%#x)' % w)
            c.eq(ptr.list_item_count(x), w >> 35, 'list_item_count(%#x)' % w)
            c.eq(ptr.far_landing_pad(x), (w >> 2) & 1, 'far_landing_pad(%#x)' % w)
            c.eq(ptr.far_offset(x), (w >> 3) & 0x1fffffff, 'far_offset(%#x)' % w)
            c.eq(ptr.far_target(x), w >> 32, 'far_target(%#x)' % w)

    def structs(c):
        o, d, p = c.pick(o30), c.pick(c16), c.pick(c16 if th else c16[::3] + c16[-3:])
        w = wire.p_struct(o, d, p) & M
        c.eq(ptr.new_struct(o, d, p) & M, w, 'new_struct(%d, %d, %d)' % (o, d, p))
        c.state(w)
        accessors(c, w)
    ctx.explore('struct', structs, shard_depth=1)

    def lists(c):
        o, t, k = c.pick(o30), c.choose(8), c.pick(c29)
        w = wire.p_list(o, t, k) & M
        c.eq(ptr.new_list(o, t, k) & M, w, 'new_list(%d, %d, %d)' % (o, t, k))
        c.state(w)
        accessors(c, w)
    ctx.explore('list', lists, shard_depth=1)

    def fars(c):
        d, o, t = c.choose(2), c.pick(c29), c.pick(T32)
        w = wire.p_far(d, o, t) & M
        c.eq(ptr.new_far(d, o, t) & M, w, 'new_far(%d, %d, %d)' % (d, o, t))
        c.state(w)
        accessors(c, w)
    ctx.explore('far', fars, shard_depth=2)

    def generic(c):
        kind, o, e = c.choose(4), c.pick(o30), c.pick(T32)
        w = ((e << 32) | ((o & 0x3fffffff) << 2) | kind) & M
        got = ptr.new_generic(kind, o, signed(e, 32)) & M
        c.eq(got, w, 'new_generic(%d, %d, %d)' % (kind, o, e))
        accessors(c, w)
    ctx.explore('generic', generic, shard_depth=2)

    def words(c):
        i, j = c.choose(64), c.choose(64)
        w = (1 << i) | (1 << j)
        if th:
            w |= 1 << c.choose(64)
        if c.flag():
            w ^= M
        accessors(c, w)
    ctx.explore('words', words, shard_depth=1)

    def consts(c):
        c.eq((ptr.STRUCT, ptr.LIST, ptr.FAR), (0, 1, 2), 'pointer kinds')
        c.eq(tuple(getattr(ptr, 'LIST_SIZE_' + x) for x in ('VOID', 'BIT', '8', '16', '32', '64', 'PTR', 'COMPOSITE')), tuple(range(8)), 'list sizes')
        c.eq([ptr.list_item_length(i) for i in range(8)], [0, -1, 1, 2, 4, 8, 8, -1], 'list item lengths')
        for i in range(4097):
            c.eq(ptr.round_up_to_word(i), (i + 7) // 8 * 8, 'round_up_to_word(%d)' % i)
    ctx.explore('constants', consts)

    # ---- primitives
    FMT = 'bBhHiIqQfd'
    LIM = [2 ** 31 - 8, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 4, 2 ** 32, 2 ** 62, 2 ** 63 - 8, 2 ** 63 - 1, -2 ** 31, -2 ** 63, -1000]
    FILL = [bytes(bytearray([0]) * 17), bytes(bytearray([255]) * 17), bytes(bytearray(range(1, 18))), bytes(bytearray(range(250, 256)) + bytearray(range(127, 138))),
            bytes(bytearray([0x7f, 0xff] * 8 + [0x80])), struct.pack('<dff', 1.5, float('inf'), -0.0) + b'\x01']
    READ = {'q': 'read_int64', 'Q': 'read_uint64', 'i': 'read_int32', 'I': 'read_uint32', 'h': 'read_int16', 'H': 'read_uint16',
            'b': 'read_int8', 'B': 'read_uint8', 'd': 'read_double', 'f': 'read_float'}
    DIRECT = {'q': 'unpack_int64', 'h': 'unpack_int16', 'I': 'unpack_uint32'}

    def reads(c):
        n = c.choose(18)
        buf = c.pick(FILL)[:n]
        fmt = c.pick(FMT)
        seg = BaseSegmentForTests(buf)
        size = struct.calcsize('<' + fmt)
        for off in list(range(-9, 27)) + LIM:
            fits = 0 <= off <= n - size
            want = struct.unpack('<' + fmt, buf[off:off + size])[0] if fits else None
            fns = [('segment.' + READ[fmt], lambda: getattr(seg, READ[fmt])(off)), ('segment.read_primitive', lambda: seg.read_primitive(off, ord(fmt))),
                   ('packing.unpack_primitive', lambda: packing.unpack_primitive(ord(fmt), buf, off)),
                   ('packing.unpack_primitive(bytearray)', lambda: packing.unpack_primitive(ord(fmt), bytearray(buf), off))]
            if fmt == 'Q':
                fns.append(('segment.read_uint64_magic', lambda: seg.read_uint64_magic(off)))
            if fmt in DIRECT:
                fns.append(('packing.' + DIRECT[fmt], lambda: getattr(packing, DIRECT[fmt])(buf, off)))
            if fmt == 'I':
                fns.append(('segment.unpack_uint32', lambda: unpack_uint32(buf, off)))
            for name, f in fns:
                try:
                    got = f()
                except IndexError:
                    c.step()
                    if fits:
                        c.fail('%s of %r at %d: IndexError although it fits' % (name, buf, off))
                    continue
                except OverflowError:
                    # offsets which do not fit in a C integer
                    if fits or -2 ** 31 <= off < 2 ** 31:
                        c.fail('%s of %r at %d: OverflowError' % (name, buf, off))
                    continue
                if not fits:
                    c.fail('%s of %d bytes at %d returned %r instead of IndexError' % (name, n, off, got))
                c.eq(got, want, '%s of %r at %d' % (name, buf, off))
        c.state(fmt, buf)
    ctx.explore('reads', reads, shard_depth=1)

    def writes(c):
        n = c.choose(18)
        fmt = c.pick(FMT)
        size = struct.calcsize('<' + fmt)
        if fmt in 'fd':
            vals = [0.0, -0.0, 1.5, float('inf'), float('-inf'), 3]
        else:
            bits = size * 8
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if fmt.islower() else (0, (1 << bits) - 1)
            vals = [0, 1, lo, hi, hi // 3, lo - 1, hi + 1, 1 << 70, -1 << 70]
        v = c.pick(vals)
        for off in list(range(-9, 27)) + LIM:
            fits = 0 <= off <= n - size
            try:
                enc = struct.pack('<' + fmt, v)
            except (struct.error, ValueError, OverflowError):
                enc = None
            for fill in (0, 0xee):
                buf = bytearray([fill]) * n
                fns = [lambda: packing.pack_into(ord(fmt), buf, off, v)]
                if fmt == 'q':
                    fns.append(lambda: packing.pack_int64_into(buf, off, v))
                for f in fns:
                    try:
                        f()
                        ok = True
                    except (IndexError, OverflowError, ValueError, struct.error):
                        ok = False
                    want = bytearray([fill]) * n
                    if fits and enc is not None:
                        want[off:off + size] = enc
                    c.eq(ok, fits and enc is not None, 'packing %r as %s at %d of %d bytes: accepted' % (v, fmt, off, n))
                    if fits and not ok:
                        # the target of a refused value is unspecified, its neighbours are not
                        buf[off:off + size] = want[off:off + size]
                    c.check(buf == want, 'packing %r as %s at %d of %d bytes gives %r' % (v, fmt, off, n, bytes(buf)))
    ctx.explore('writes', writes, shard_depth=1)

    def headers(c):
        size = c.pick([0, 1, 2, 255, 256, 65535, 2 ** 31 - 1])
        p = c.pick([0, 1, -1, 2 ** 32, 0x0001000200000000, 2 ** 63 - 1]) if ctx.mode == 'cpy' else c.pick([0, 1, M, 2 ** 32, 2 ** 63])
        c.eq(packing.pack_message_header(1, size, p), struct.pack('<IIQ', 0, size, p & M), 'pack_message_header(1, %d, %#x)' % (size, p))
        v = c.pick([0, 1, -1, 2 ** 63 - 1, -2 ** 63, 0x0123456789abcdef])
        c.eq(packing.pack_int64(v), struct.pack('<q', v), 'pack_int64(%d)' % v)
        seg = BaseSegmentForTests(b'0123456789abcdef')
        for a in range(-1, 18):
            for b in range(-1, 18):
                try:
                    got = seg.dump_message(5, a, b)
                except ValueError:
                    c.check(not 0 <= a <= b <= 16, 'dump_message(%d, %d) refused' % (a, b))
                    continue
                c.check(0 <= a <= b <= 16, 'dump_message(%d, %d) accepted' % (a, b))
                c.eq(got, struct.pack('<IIq', 0, (b - a) // 8 + 1, 5) + b'0123456789abcdef'[a:b], 'dump_message(%d, %d)' % (a, b))
    ctx.explore('headers', headers)
    ctx.sample('pointer words: %r' % (dict(ctx.ex.scenarios),))
