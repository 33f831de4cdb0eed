"""
Reference model of the Cap'n Proto wire format, written from the specification
(https://capnproto.org/encoding.html) and independent of capnpy.

A message is a *tree*:

    None                     null pointer
    St(data, ptrs)           struct: data section (bytes, multiple of 8), list of children
    Pl(tag, count, raw)      list of void/bit/1/2/4/8-byte values; raw = the packed items, no padding
    Pp(items)                list of pointers
    Co(dw, pw, items)        composite list: every item is a St of exactly that size
    Cap(index)               capability pointer (only to build odd messages)

`encode(tree, plan)` lays the tree out physically; `decode(segments)` reads any
valid layout back (strict: raises WireError for everything that is not valid).
"""
import struct

SIZES = {0: 0, 1: None, 2: 1, 3: 2, 4: 4, 5: 8}


class WireError(Exception):
    pass


class Unrepresentable(WireError):
    """the layout would need a null word for a non-null pointer (an empty struct at offset 0)"""


class St(object):
    __slots__ = ('data', 'ptrs')

    def __init__(self, data=b'', ptrs=()):
        assert len(data) % 8 == 0
        self.data = bytes(data)
        self.ptrs = list(ptrs)

    dw = property(lambda self: len(self.data) // 8)
    pw = property(lambda self: len(self.ptrs))

    def key(self):
        return ('St', self.data, tuple(k(p) for p in self.ptrs))


class Pl(object):
    __slots__ = ('tag', 'count', 'raw')

    def __init__(self, tag, count, raw=b''):
        self.tag, self.count, self.raw = tag, count, bytes(raw)
        assert len(self.raw) == raw_len(tag, count), (tag, count, len(self.raw))

    def key(self):
        return ('Pl', self.tag, self.count, self.raw)


class Pp(object):
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = list(items)

    def key(self):
        return ('Pp', tuple(k(p) for p in self.items))


class Co(object):
    __slots__ = ('dw', 'pw', 'items')

    def __init__(self, dw, pw, items=()):
        self.dw, self.pw, self.items = dw, pw, list(items)
        for it in self.items:
            assert it.dw == dw and it.pw == pw

    def key(self):
        return ('Co', self.dw, self.pw, tuple(k(p) for p in self.items))


class Cap(object):
    __slots__ = ('index',)

    def __init__(self, index):
        self.index = index

    def key(self):
        return ('Cap', self.index)


def k(t):
    """hashable key of a tree; equal keys <=> equal content"""
    return None if t is None else t.key()


def canon(t):
    """Tree modulo what schema evolution makes unobservable: trailing zero
    words of a data section, trailing null pointers, per-item sizes of a composite list.
    An all-default struct stays a struct."""
    if t is None:
        return None
    if isinstance(t, St):
        d = t.data
        while d[-8:] == b'\0' * 8 and d:
            d = d[:-8]
        p = [canon(x) for x in t.ptrs]
        while p and p[-1] is None:
            p.pop()
        return ('St', d, tuple(p))
    if isinstance(t, Pp):
        return ('Pp', tuple(canon(x) for x in t.items))
    if isinstance(t, Co):
        return ('Co', tuple(canon(x) for x in t.items))
    return t.key()


def raw_len(tag, count):
    if tag == 1:
        return (count + 7) // 8
    return SIZES[tag] * count


def text(s):
    return Pl(2, len(s) + 1, s + b'\0')


def data(s):
    return Pl(2, len(s), s)


def words(n):
    return (n + 7) // 8


# ---------------------------------------------------------------- pointers

def p_struct(off, dw, pw):
    return ((off & 0x3fffffff) << 2) | (dw << 32) | (pw << 48)


def p_list(off, tag, count):
    return 1 | ((off & 0x3fffffff) << 2) | (tag << 32) | (count << 35)


def p_far(double, off, seg):
    return 2 | (double << 2) | (off << 3) | (seg << 32)


def p_cap(index):
    return 3 | (index << 32)


def pack_ptr(p):
    return struct.pack('<Q', p)


# ---------------------------------------------------------------- layout

class Unit(object):
    """one allocation: a struct or a list body"""
    __slots__ = ('node', 'nwords', 'edges', 'parent', 'slot', 'idx', 'tail')

    def __init__(self, node):
        self.node = node
        self.edges = []      # (word offset of the pointer inside the unit, child Unit or Cap)
        self.tail = 0


def units_of(root):
    """Units in pre-order (a unit, then its children in order, recursively);
    composite list items belong to the list's unit."""
    out = []

    def visit(node, parent, slot):
        u = Unit(node)
        u.parent, u.slot, u.idx = parent, slot, len(out)
        out.append(u)
        if isinstance(node, St):
            u.nwords = node.dw + node.pw
            slots = [(node.dw + i, ch) for i, ch in enumerate(node.ptrs)]
        elif isinstance(node, Pl):
            u.nwords = words(len(node.raw))
            slots = []
        elif isinstance(node, Pp):
            u.nwords = len(node.items)
            slots = list(enumerate(node.items))
        elif isinstance(node, Co):
            isz = node.dw + node.pw
            u.nwords = 1 + isz * len(node.items)
            slots = [(1 + i * isz + node.dw + j, ch)
                     for i, it in enumerate(node.items) for j, ch in enumerate(it.ptrs)]
        else:
            raise AssertionError(node)
        for s, ch in slots:
            if ch is None:
                continue
            if isinstance(ch, Cap):
                u.edges.append((s, ch))
            else:
                u.edges.append((s, visit(ch, u, s)))
        return u
    if root is not None:
        visit(root, None, 0)
    return out


class Plan(object):
    """A physical layout.
      order:  unit indices, in placement order (default: pre-order)
      seg:    {unit idx: segment} (default 0)
      gap:    {unit idx: words of padding before it}
      far:    {unit idx: 'near' | 'single' | ('double', padseg)} for the pointer TO the unit.
              Cross-segment pointers default to 'single'.
      padfirst: landing pads at the start (True) or end of their segment
      extra:  {segment: extra words at the end}
      nseg:   number of segments
      fill:   byte used for gaps
      padbits: fill byte for the tail padding of primitive lists (normally 0)
      empty_off: pointer offset used for empty structs: -1 (canonical) or 'real'
      slack:  words allocated (and counted in the list pointer) beyond the items of composite lists
    """

    def __init__(self, order=None, seg=None, gap=None, far=None, padfirst=False,
                 extra=None, nseg=None, fill=0, padbits=0, empty_off=-1, slack=0):
        self.order, self.seg, self.gap, self.far = order, seg or {}, gap or {}, far or {}
        self.padfirst, self.extra, self.fill = padfirst, extra or {}, fill
        self.nseg, self.padbits = nseg, padbits
        self.empty_off = empty_off
        self.slack = slack

    def key(self):
        return (tuple(self.order) if self.order else None, tuple(sorted(self.seg.items())),
                tuple(sorted(self.gap.items())), tuple(sorted(self.far.items(), key=repr)), self.padfirst,
                tuple(sorted(self.extra.items())), self.nseg, self.fill, self.padbits,
                self.empty_off, self.slack)


def encode(root, plan=None):
    """-> list of segments (bytes)"""
    segs, pos, units = layout(root, plan)
    return segs


def layout(root, plan=None):
    """-> (segments, {unit idx: (seg, word)}, units)"""
    plan = plan or Plan()
    units = units_of(root)
    if plan.slack:
        for u in units:
            if isinstance(u.node, Co):
                u.nwords += plan.slack
    nseg = plan.nseg
    if nseg is None:
        nseg = 1 + max([0] + list(plan.seg.values()) +
                       [f[1] for f in plan.far.values() if isinstance(f, tuple)])
    fills = [[] for _ in range(nseg)]      # (start word, n words)
    size = [0] * nseg
    size[0] = 1                            # the root pointer
    pos = {}
    pads = {}

    def seg_of(u):
        return plan.seg.get(u.idx, 0)

    # which pointers need a landing pad?
    need = []
    for u in units:
        src = 0 if u.parent is None else seg_of(u.parent)
        mode = plan.far.get(u.idx)
        if u.nwords == 0 and isinstance(u.node, St) and mode is None and plan.empty_off == -1:
            continue                       # canonical empty struct: plain pointer
        if mode is None:
            mode = 'near' if src == seg_of(u) else 'single'
        if mode == 'near':
            assert src == seg_of(u), 'near pointer across segments'
            continue
        if mode == 'single':
            need.append((u, seg_of(u), 1))
        else:
            need.append((u, mode[1], 2))

    def place_pads():
        for u, s, n in need:
            pads[u.idx] = (s, size[s], n)
            size[s] += n

    if plan.padfirst:
        place_pads()
    order = plan.order if plan.order is not None else range(len(units))
    for i in order:
        u = units[i]
        s = seg_of(u)
        g = plan.gap.get(i, 0)
        if g:
            fills[s].append((size[s], g))
            size[s] += g
        pos[i] = (s, size[s])
        size[s] += u.nwords
    if not plan.padfirst:
        place_pads()
    for s, n in plan.extra.items():
        fills[s].append((size[s], n))
        size[s] += n
    if any(size[pos[i][0]] == 0 for i in pos):
        raise Unrepresentable()            # capnp rejects pointers into an empty segment
    bufs = [bytearray(n * 8) for n in size]
    for s in range(nseg):
        for start, n in fills[s]:
            bufs[s][start * 8:(start + n) * 8] = bytes(bytearray([plan.fill])) * (n * 8)

    def put(s, w, p):
        bufs[s][w * 8:w * 8 + 8] = struct.pack('<Q', p & 0xffffffffffffffff)

    def ptr_to(u, off):
        n = u.node
        if off == 0 and isinstance(n, St) and u.nwords == 0:
            raise Unrepresentable()
        if isinstance(n, St):
            return p_struct(off, n.dw, n.pw)
        if isinstance(n, Pl):
            return p_list(off, n.tag, n.count)
        if isinstance(n, Pp):
            return p_list(off, 6, len(n.items))
        return p_list(off, 7, u.nwords - 1)

    for u in units:
        s, w = pos[u.idx]
        n = u.node
        if isinstance(n, St):
            bufs[s][w * 8:w * 8 + len(n.data)] = n.data
        elif isinstance(n, Pl):
            end = w * 8 + len(n.raw)
            bufs[s][w * 8:end] = n.raw
            if plan.padbits:
                e2 = (w + u.nwords) * 8
                bufs[s][end:e2] = bytes(bytearray([plan.padbits])) * (e2 - end)
                if n.tag == 1 and n.count % 8:
                    bufs[s][end - 1] |= plan.padbits & (0xff << (n.count % 8)) & 0xff
        elif isinstance(n, Co):
            put(s, w, p_struct(len(n.items), n.dw, n.pw))
            isz = (n.dw + n.pw) * 8
            for i, it in enumerate(n.items):
                a = (w + 1) * 8 + i * isz
                bufs[s][a:a + n.dw * 8] = it.data
        # the pointer to u
        if u.parent is None:
            ps, pw_ = 0, 0
        else:
            ps, pw_ = pos[u.parent.idx][0], pos[u.parent.idx][1] + u.slot
        if u.idx not in pads:
            if u.nwords == 0 and isinstance(n, St) and plan.empty_off == -1:
                put(ps, pw_, ptr_to(u, -1))
            else:
                put(ps, pw_, ptr_to(u, w - pw_ - 1))
        else:
            padseg, padw, npad = pads[u.idx]
            put(ps, pw_, p_far(npad - 1, padw, padseg))
            if npad == 1:
                put(padseg, padw, ptr_to(u, w - padw - 1))
            else:
                put(padseg, padw, p_far(0, w, s))
                put(padseg, padw + 1, ptr_to(u, 0))
        for slot, ch in u.edges:
            if isinstance(ch, Cap):
                put(s, w + slot, p_cap(ch.index))
    return [bytes(b) for b in bufs], pos, units


def frame(segs):
    """stream framing of a list of segments"""
    n = len(segs)
    h = struct.pack('<I', n - 1) + b''.join(struct.pack('<I', len(s) // 8) for s in segs)
    if len(h) % 8:
        h += b'\0\0\0\0'
    return h + b''.join(segs)


def unframe(buf, pos=0):
    """-> (segments, end position)"""
    def need(n):
        if pos + n > len(buf):
            raise WireError('truncated')
    need(4)
    n = struct.unpack_from('<I', buf, pos)[0] + 1
    hl = 4 + 4 * n
    hl += -hl % 8
    need(hl)
    sizes = struct.unpack_from('<%dI' % n, buf, pos + 4)
    p = pos + hl
    segs = []
    for sz in sizes:
        if p + sz * 8 > len(buf):
            raise WireError('truncated body')
        segs.append(bytes(buf[p:p + sz * 8]))
        p += sz * 8
    return segs, p


def message(root, plan=None):
    return frame(encode(root, plan))


# ---------------------------------------------------------------- decoding

def _signed30(v):
    return v - (1 << 30) if v & (1 << 29) else v


class Decoder(object):
    """strict decoder.  With `extents`, records (seg, start, end) of every object."""

    def __init__(self, segs, maxdepth=200, exact=False):
        self.segs = segs
        self.exact = exact
        self.extents = []
        self.pointers = 0
        self.far = 0
        self.maxdepth = maxdepth

    def word(self, s, w):
        if s >= len(self.segs) or w < 0 or (w + 1) * 8 > len(self.segs[s]):
            raise WireError('word out of bounds: %d:%d' % (s, w))
        return struct.unpack_from('<Q', self.segs[s], w * 8)[0]

    def block(self, s, w, n, what):
        if n == 0:
            # zero-sized objects may be anywhere inside the segment, or at its end
            if w < 0 or w * 8 > len(self.segs[s]):
                raise WireError('%s out of bounds: %d:%d' % (what, s, w))
            return
        if w < 0 or (w + n) * 8 > len(self.segs[s]):
            raise WireError('%s out of bounds: %d:%d+%d' % (what, s, w, n))
        self.extents.append((s, w, w + n))

    def root(self):
        return self.ptr(0, 0, 0)

    def ptr(self, s, w, depth):
        if depth > self.maxdepth:
            raise WireError('too deep')
        p = self.word(s, w)
        if p == 0:
            return None
        self.pointers += 1
        kind = p & 3
        if kind == 3:
            if p & 0xfffffffc:
                raise WireError('bad capability pointer')
            return Cap(p >> 32)
        if kind == 2:
            self.far += 1
            double, off, seg = (p >> 2) & 1, (p >> 3) & 0x1fffffff, p >> 32
            if not double:
                p = self.word(seg, off)
                self.extents.append((seg, off, off + 1))
                if p & 3 == 2:
                    raise WireError('far pointer to a far pointer')
                if p == 0:
                    return None
                start = off + 1 + _signed30((p >> 2) & 0x3fffffff)
                return self.target(p, seg, start, depth)
            q = self.word(seg, off)
            tag = self.word(seg, off + 1)
            self.extents.append((seg, off, off + 2))
            if q & 3 != 2 or (q >> 2) & 1:
                raise WireError('bad double-far landing pad')
            if (tag >> 2) & 0x3fffffff:
                raise WireError('tag word with offset')
            return self.target(tag, q >> 32, (q >> 3) & 0x1fffffff, depth)
        start = w + 1 + _signed30((p >> 2) & 0x3fffffff)
        return self.target(p, s, start, depth)

    def target(self, p, s, w, depth):
        if s >= len(self.segs):
            raise WireError('bad segment')
        if p & 3 == 0:
            dw, pw = (p >> 32) & 0xffff, p >> 48
            self.block(s, w, dw + pw, 'struct')
            d = self.segs[s][w * 8:(w + dw) * 8] if dw else b''
            return St(d, [self.ptr(s, w + dw + i, depth + 1) for i in range(pw)])
        tag, count = (p >> 32) & 7, p >> 35
        if tag == 6:
            self.block(s, w, count, 'list')
            return Pp([self.ptr(s, w + i, depth + 1) for i in range(count)])
        if tag == 7:
            self.block(s, w, count + 1, 'composite list')
            t = self.word(s, w)
            if t & 3:
                raise WireError('bad composite tag')
            n, dw, pw = _signed30((t >> 2) & 0x3fffffff), (t >> 32) & 0xffff, t >> 48
            if n < 0 or n * (dw + pw) > count or self.exact and n * (dw + pw) != count:
                raise WireError('composite list size mismatch: %d items of %d+%d words, %d words' % (n, dw, pw, count))
            items = []
            for i in range(n):
                a = w + 1 + i * (dw + pw)
                items.append(St(self.segs[s][a * 8:(a + dw) * 8],
                                [self.ptr(s, a + dw + j, depth + 1) for j in range(pw)]))
            return Co(dw, pw, items)
        n = raw_len(tag, count)
        self.block(s, w, words(n), 'list')
        raw = bytearray(self.segs[s][w * 8:w * 8 + n])
        if tag == 1 and count % 8:
            raw[-1] &= (1 << (count % 8)) - 1
        return Pl(tag, count, bytes(raw))


def decode(segs, maxdepth=200):
    return Decoder(segs, maxdepth).root()


def decode_message(buf):
    segs, end = unframe(buf)
    if end != len(buf):
        raise WireError('trailing bytes')
    return decode(segs)


def check_created(buf, exact=True):
    """Decode a message produced by capnpy and check it strictly: single
    segment, no overlaps, no far pointers, no trailing words, padding zeroed.
    Returns the tree."""
    segs, end = unframe(buf)
    if end != len(buf):
        raise WireError('message has trailing bytes')
    if len(segs) != 1:
        raise WireError('more than one segment')
    d = Decoder(segs, exact=exact)
    t = d.root()
    if d.far:
        raise WireError('far pointer in a single-segment message')
    ext = sorted((a, b) for _, a, b in d.extents)
    cur = 1
    for a, b in ext:
        if a < cur:
            raise WireError('overlapping objects at word %d' % a)
        if a > cur:
            raise WireError('gap at word %d' % cur)
        cur = b
    if cur * 8 != len(segs[0]):
        raise WireError('%d unused words at the end' % (len(segs[0]) // 8 - cur))
    return t
