"""
Building blocks of the explored spaces: boundary values per type, small wire trees, physical layouts.
"""
import itertools

from mc import wire
from mc.wire import St, Pl, Pp, Co, Plan

# ------------------------------------------------------------ values

INTS = {}
for _b in (8, 16, 32, 64):
    INTS['int%d' % _b] = [0, 1, -1, 2 ** (_b - 1) - 1, -2 ** (_b - 1), 85]
    INTS['uint%d' % _b] = [0, 1, 2 ** _b - 1, 2 ** (_b - 1), 2 ** (_b - 1) - 1, 170]
FLOATS = {
    'float32': [0.0, -0.0, 1.5, -2.25, float('inf'), float('-inf'), 3.4028234663852886e+38, 1.401298464324817e-45, float('nan')],
    'float64': [0.0, -0.0, 1.5, -2.25, float('inf'), float('-inf'), 1.7976931348623157e+308, 5e-324, 0.1, float('nan')],
}
TEXTS = [b'', b'a', b'hello w', b'12345678', b'caf\xc3\xa9', b'a\0b', b'x' * 17]
DATAS = [b'', b'\0', b'\xff\xfe', b'\0\0\0\0\0\0\0\0', b'12345678', bytes(bytearray(range(256)))]


def scalar_values(t, nenum=4):
    if t.kind == 'void':
        return [None]
    if t.kind == 'bool':
        return [False, True]
    if t.kind == 'enum':
        return list(range(nenum)) + [nenum]
    if t.kind in INTS:
        return INTS[t.kind]
    return FLOATS[t.kind]


# ------------------------------------------------------------ layouts

def seq_partitions(n, kmax):
    """assignments of n units to segments, where segment numbers >0 first appear in order"""
    out = []

    def rec(i, cur, m):
        if i == n:
            out.append(tuple(cur))
            return
        for s in range(min(m + 1, kmax - 1) + 1):
            rec(i + 1, cur + [s], max(m, s))
    rec(0, [], 0)
    return out


def all_layout(c, root, nseg=2, gaps=(0, 1), orders=True, pads=(False, True), fill=0xa5, dev=False, far_same=True):
    """choose a physical layout of `root`; every combination when dev is False, otherwise
    deviations from the canonical layout are bounded by the explorer's max_dev"""
    units = wire.units_of(root)
    m = len(units)
    ch = (lambda seq, l=None: c.dev(seq, l)) if dev else (lambda seq, l=None: c.pick(seq, l))
    order = None
    if orders and m > 1:
        # lehmer-coded permutation, so that deviations are local
        pool = list(range(m))
        order = []
        for i in range(m - 1):
            order.append(pool.pop(ch(list(range(len(pool))), 'ord%d' % i)))
        order.append(pool[0])
    seg, gap, far = {}, {}, {}
    for u in units:
        seg[u.idx] = ch(list(range(nseg)), 'seg%d' % u.idx)
        if len(gaps) > 1:
            gap[u.idx] = ch(list(gaps), 'gap%d' % u.idx)
    anyfar = False
    for u in units:
        src = 0 if u.parent is None else seg[u.parent.idx]
        dst = seg[u.idx]
        if src == dst:
            opts = ['near'] + (['single'] if far_same else [])
        else:
            opts = ['single']
        if far_same or src != dst:
            opts += [('double', s) for s in range(nseg)]
        if u.nwords == 0 and isinstance(u.node, St):
            opts = ['canon'] + opts           # the canonical encoding: offset -1
        f = ch(opts, 'far%d' % u.idx)
        if f == 'canon':
            continue
        far[u.idx] = f
        anyfar |= f != 'near'
    padfirst = ch(list(pads), 'padfirst') if anyfar and len(pads) > 1 else False
    return Plan(order=order, seg=seg, gap=gap, far=far, padfirst=padfirst, nseg=nseg, fill=fill)


# ------------------------------------------------------------ pointer values (python values for refschema)

def rot(seq, n):
    """n items, cycling through seq"""
    return [seq[i % len(seq)] for i in range(n)]


def inner_values():
    return [{}, {'a': -1, 'd': 0}, {'a': 2 ** 31 - 1, 'b': b'', 'c': []}, {'b': b'inner', 'c': [1, -2, 3], 'd': 255},
            {'c': [0] * 5}, {'a': 7, 'b': b'caf\xc3\xa9 ok'}]


def struct_values(name):
    if name == 'Inner':
        return inner_values()
    if name == 'Leaf':
        return [{}, {'x': -1}, {'y': 65535}, {'x': 2 ** 63 - 1, 'y': 1}]
    if name == 'Empty':
        return [{}]
    if name == 'Names':
        return [{}, {'s': b'x'}, {'d': b'\0\xff'}, {'s': b'longer text', 'd': b''}]
    if name == 'Tree':
        return [{}, {'val': -3}, {'name': b'nm', 'kids': [{'val': 1}]}, {'left': {'right': {}}}]
    if name == 'KLeaf':
        return [{}, {'x': 5}, {'x': -1, 'name': b'k'}]
    if name == 'All':
        return [{}, {'b': True}, {'t': None, 'pre': 5}, {'g': {'ga': -1, 'gb': b'q'}, 'post': 0}]
    if name == 'Multi':
        return [{}, {'named1': {'q': 3}, 'z1': [1, -1]}, {'named2': {'r': True}, 'z2': 9}]
    if name == 'First':
        return [{}, {'a': -4}, {'b': b'f', 'c': True}]
    raise KeyError(name)


def pointer_values(schema, t, lens=(0, 1, 2, 3, 5, 8, 9)):
    """values (python, for Schema.tree) of a pointer type; None is the null pointer"""
    if t.kind == 'text':
        return [None] + TEXTS
    if t.kind == 'data':
        return [None] + DATAS
    if t.kind == 'struct':
        return [None] + struct_values(schema.nodes[t.id].name)
    assert t.kind == 'list', t
    e = t.elem
    out = [None]
    if e.kind == 'bool':
        for n in range(0, 5):
            out += [list(map(bool, bits)) for bits in itertools.product((0, 1), repeat=n)]
        for n in (7, 8, 9, 16, 17):
            out += [[i == j for i in range(n)] for j in range(n)] + [[True] * n, [False] * n]
        return out
    if not e.is_ptr():
        vals = scalar_values(e)
        for n in lens:
            out.append(rot(vals, n))
            if n in (1, 2):
                out += [rot(vals[i:] + vals[:i], n) for i in range(1, len(vals))]
        return out
    if e.kind == 'list':
        subs = pointer_values(schema, e, (0, 1, 3))[1:5]
        out += [[], [subs[0]], [subs[1], subs[2]], [subs[-1], subs[0], subs[1]]]
        return out
    vals = pointer_values(schema, e)
    if e.kind in ('struct',):
        vals = vals[1:]
    if e.kind in ('text', 'data'):
        vals = vals[1:]
    for n in (0, 1, 2, 3):
        out.append(rot(vals, n))
    out += [[v] for v in vals[1:]]
    out += [[a, b] for a in vals[:3] for b in vals[:3]]
    return out
