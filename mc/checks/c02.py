"""C02: constructed objects read back their arguments and serialize to valid wire data."""
from mc import wire, refschema
from mc.wire import St
from mc.explore import Skip
from mc.shapes import pointer_values, scalar_values
from mc.view import View
from mc.construct import Maker
from mc.checks.c01 import validate_with_capnp

MODES = ('pyx', 'cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2, 'pyx': 2}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': 'every constructor argument x every boundary value (integers, floats, text/data lengths around the word size, '
             'lists of 0-9 items, nested structs/lists), every pair of arguments x 3 values, every set of boolean arguments, keyword / '
             'positional / tuple / group-constructor / new_* styles, nested trees up to depth 4',
    'thorough': 'as quick with pairs x 6 values and triples of arguments x 2 values'}
ASSUMPTIONS = ['mc/wire.py + mc/refschema.py are the specification; the messages created are cross-checked with `capnp convert`',
               'List(Bool) and AnyPointer constructor arguments are documented as unsupported and only checked to be refused (C23)']


def field_values(S, f):
    """values for a (non-group) field"""
    t = f.type
    if t.kind == 'void':
        return [None]
    if t.is_ptr():
        return pointer_values(S, t)
    return scalar_values(t, 4)[:-1] if t.kind == 'enum' else scalar_values(t)


def usable(f):
    if f.type.kind == 'anyPointer':
        return False
    return not (f.type.kind == 'list' and f.type.elem.kind == 'bool')


def leaves(S, n, path=()):
    """every slot reachable through groups: [(path of field names, field)]"""
    out = []
    for f in n.fields:
        if f.group is not None:
            out += leaves(S, S.nodes[f.group], path + (f.name,))
        elif usable(f):
            out.append((path + (f.name,), f))
    return out


def put(value, path, v):
    d = value
    for p in path[:-1]:
        d = d.setdefault(p, {})
    d[path[-1]] = v


def conflict(S, n, a, b):
    """two paths which select different members of one union?"""
    for x, y in zip(a, b):
        if x == y:
            n = S.nodes[n.byname[x].group] if n.byname[x].group is not None else n
            continue
        return n.byname[x].disc != 0xffff and n.byname[y].disc != 0xffff
    return False


def check_object(c, view, S, n, obj, want, name, static=True):
    view.check_struct(c, n, obj, want, name)
    buf = obj.dumps()
    got = wire.check_created(buf)
    if wire.canon(got) != wire.canon(want):
        c.fail('%s: serialized content differs from the arguments: %r != %r' % (name, wire.canon(got), wire.canon(want)))
    if static and isinstance(got, St):
        c.eq((got.dw, got.pw), (n.dw, n.pw), name + ': struct size')
    c.state(name, buf)
    return buf


def run(ctx):
    S = ctx.schema('zoo')
    mod = ctx.load('zoo')
    view = View(S, mod)
    th = ctx.thorough
    msgs = {}

    def build(c, n, value, maker, positional=False):
        want = S.to_wire(n, value)
        obj = maker.struct(n, value, positional)
        buf = check_object(c, view, S, n, obj, want, n.name)
        if ctx.first() and n.dw + n.pw:
            msgs.setdefault(n.name, {}).setdefault(buf, wire.canon(want))
        return obj

    styles = [Maker(view), Maker(view, 'ctor', 'member', 'kw', 'tuple')]
    names = ['Prims', 'Ptrs', 'Leaf', 'Inner', 'Names', 'Grp', 'Un', 'Tree', 'One', 'Two', 'PtrOnly', 'Keyed', 'LayE']

    def empty(c):
        build(c, S.byname['Empty'], {}, c.pick(styles))
    ctx.explore('empty', empty)
    # ---- one argument
    for name in names:
        n = S.byname[name]
        lv = leaves(S, n)

        def one(c):
            path, f = c.pick(lv)
            v = c.pick(field_values(S, f))
            c.note('%s=%r' % ('.'.join(path), v))
            value = {}
            put(value, path, v)
            if n.name == 'Un' and path[0] == 'named':
                pass
            build(c, n, value, c.pick(styles))
        ctx.explore('one/' + name, one, shard_depth=1)

        # ---- two arguments
        def two(c):
            i = c.choose(len(lv))
            j = c.choose(len(lv))
            if j <= i or conflict(S, n, lv[i][0], lv[j][0]):
                raise Skip()
            k = 6 if th else 3
            a, b = field_values(S, lv[i][1]), field_values(S, lv[j][1])
            v = c.pick(a[-k:] if len(a) > k else a)
            w = c.pick(b[-k:] if len(b) > k else b)
            c.note('%s=%r %s=%r' % ('.'.join(lv[i][0]), v, '.'.join(lv[j][0]), w))
            value = {}
            put(value, lv[i][0], v)
            put(value, lv[j][0], w)
            build(c, n, value, styles[0])
        ctx.explore('two/' + name, two, shard_depth=2)

        if th:
            def three(c):
                i = c.choose(len(lv))
                j = c.choose(len(lv))
                k = c.choose(len(lv))
                if not i < j < k or any(conflict(S, n, lv[a][0], lv[b][0]) for a, b in ((i, j), (i, k), (j, k))):
                    raise Skip()
                value = {}
                for x in (i, j, k):
                    vs = field_values(S, lv[x][1])
                    put(value, lv[x][0], c.pick(vs[-2:]))
                build(c, n, value, styles[0])
            if len(lv) <= 20:
                ctx.explore('three/' + name, three, shard_depth=2)

        # ---- all arguments at once, positionally and by keyword; the k-th value of each
        def full(c):
            k = c.choose(9)
            positional = c.flag()
            st = c.pick(styles)
            members = [f for f in n.fields if f.disc != 0xffff]
            m = c.pick(members) if members else None
            value = {}
            for path, f in lv:
                top = n.byname[path[0]]
                if top.disc != 0xffff and top is not m:
                    continue
                if name == 'Un' and path[0] == 'named' and path[1] != ('one', 'two', 'three', 'four')[k % 4]:
                    continue
                vs = field_values(S, f)
                put(value, path, vs[k % len(vs)])
            if m is not None and st.union_style == 'kw' and positional:
                raise Skip()
            build(c, n, value, st, positional)
        ctx.explore('full/' + name, full, shard_depth=1)

    # ---- every subset of the booleans, on top of neighbours
    n = S.byname['Prims']
    bools = [f.name for f in n.fields if f.type.kind == 'bool']

    def bits(c):
        value = {b: c.flag() for b in bools}
        value['i8'] = c.pick([0, -1])
        build(c, n, value, styles[0])
    ctx.explore('bits', bits, shard_depth=4)

    # ---- trees
    tn = S.byname['Tree']

    def gen(c, depth):
        v = {}
        if c.flag():
            v['val'] = -5
            v['name'] = b'nm'
        if depth > 0:
            if c.flag():
                v['left'] = gen(c, depth - 1)
            k = c.choose(3 if depth > 1 else 2)
            if k:
                v['kids'] = [gen(c, depth - 2 if k == 2 else 0) for _ in range(k)]
        return v

    def trees(c):
        v = gen(c, 3 if th else 2)
        build(c, tn, v, styles[0])
    ctx.explore('trees', trees, shard_depth=4)

    # ---- nested lists of structs holding lists
    pn = S.byname['Ptrs']
    f1 = pn.byname['llinner']

    def nested(c):
        inner = pointer_values(S, S.byname['One'].byname['p'].type)[1:]
        v = [[c.pick(inner) for _ in range(c.choose(3))] for _ in range(c.choose(3))]
        build(c, pn, {'llinner': v, 'text': b'z'}, styles[0])
    ctx.explore('nested', nested, shard_depth=2)

    # ---- sizes around growth of the output buffer
    def growth(c):
        field = c.pick(['text', 'data', 'ltext', 'li32', 'linner', 'lu8'])
        size = c.pick([500, 503, 504, 505, 511, 512, 513, 520, 1023, 1024, 1025, 1279, 1280, 1281, 4096, 5000, 70000])
        if field in ('text', 'data'):
            v = bytes(bytearray((i * 7 + 1) % 251 for i in range(size)))
            if field == 'text':
                v = v.replace(b'\0', b'x')
        elif field == 'ltext':
            v = [b'%d' % i for i in range(size // 8)]
        elif field == 'li32':
            v = list(range(size // 4))
        elif field == 'lu8':
            v = [i % 256 for i in range(size)]
        else:
            v = [{'a': i, 'b': b'x' * (i % 11), 'c': [i % 100] * (i % 4)} for i in range(size // 32)]
        build(c, pn, {field: v, 'textU': b'tail', 'n': 77}, styles[0])
    ctx.explore('growth', growth, shard_depth=1)

    if ctx.first() and not ctx.replay and not ctx.only:
        for name, m in sorted(msgs.items()):
            bufs = sorted(m)[::max(1, len(m) // 3000)]
            validate_with_capnp(ctx, name, bufs, [m[b] for b in bufs])
    ctx.sample('executions by scenario: %r' % (dict(list(ctx.ex.scenarios.items())[:4]),))
