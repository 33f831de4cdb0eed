"""C23: out-of-range or ill-typed arguments are refused, never silently altered."""
import math
import struct
from decimal import Decimal
from fractions import Fraction

from mc import wire
from mc.wire import St
from mc.explore import short as _short, same
from mc.view import View, pyname
from mc.construct import Maker
from mc.refschema import PRIM
from mc.checks.c01 import ANY

INTS = {name: ((-2 ** (bits - 1), 2 ** (bits - 1) - 1) if fmt.islower() else (0, 2 ** bits - 1)) for name, bits, fmt in PRIM.values() if 'float' not in name}
MODES = ('pyx', 'cpy', 'pypy', 'pure')
SHARDS = {'quick': {'cpy': 1, 'pypy': 1, 'pyx': 1, 'pure': 1}, 'thorough': {'cpy': 2, 'pypy': 2, 'pyx': 1, 'pure': 1}}
BOUNDS = {
    'quick': 'every constructor parameter of every struct of 4 schemas, and inside it every group member, nullable value, list item (first, middle and last of three) and item of a '
             'nested list x an alphabet of values of every kind (integers around the limits of every width, floats, other numbers, None, byte and unicode strings, '
             'sequences, mappings, objects convertible to a number, structs, enum members, lists and untyped pointers of other types); wrong numbers of group members; several '
             'members of a union; list lengths around the limit of the list pointer',
    'thorough': 'as quick with every pair of values in two places of the same struct, and text and data of 2^29 bytes'}
ASSUMPTIONS = ['a Void argument carries no information: only which member it selects counts',
               'a bool field represents the truth value of its argument', 'a float field represents the nearest float of its width (infinity included)',
               'a list represents the items of any iterable with a length; an enum field represents the number of its argument']


class Weird(object):
    """the objects whose meaning as a value is in a special method"""
    def __init__(self, name, method, result):
        self.name = name
        self.result = result

    def __repr__(self):
        return '<%s>' % self.name


def weird(name, method, result):
    cls = type(name, (Weird,), {method: lambda self: self.result})
    return cls(name, method, result)


class Int(int):
    pass


class Bytes(bytes):
    pass


class Str(type(u'')):
    pass


class Sized(object):
    """a sequence with any length, too long to be iterated"""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter(())

    def __repr__(self):
        return 'Sized(%d)' % self.n


def short(x):
    try:
        return _short(x)
    except Exception as e:
        return '<unprintable: %s>' % e.__class__.__name__


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(float('inf'), x)


def run(ctx):
    import capnpy
    from capnpy.struct_ import undefined
    th = ctx.thorough
    zoo = ctx.load('zoo')
    enums = ctx.load('enums2')
    SCHEMAS = ['zoo', 'defaults', 'keys', 'unions']
    Z = ctx.schema('zoo')

    EDGES = sorted({s * 2 ** k + d for k in (7, 8, 15, 16, 31, 32, 63, 64) for s in (1, -1) for d in (-1, 0, 1)} | {0, 1, 2, 3, 7, -1, -2, 10 ** 30, -10 ** 30})
    inner, leaf = zoo.Inner(a=1, b=b'x', c=[5, 6]), zoo.Leaf(x=1)
    ptrs = zoo.Ptrs(li32=[1, 300], ltext=[b'a'], linner=[inner], lcolor=[1], lli16=[[1]], ldata=[b'd'], lf64=[1.5], lu64=[2 ** 64 - 1], ltext_u=[u'\xe9'], lleaf=[leaf])
    st = Z.to_wire('LayA', {})
    st.ptrs = [Z.to_wire('Inner', {'a': 3}), wire.text(b'at'), wire.Pl(3, 1, b'\1\0')]
    laya = capnpy.loads(wire.message(St(st.data, st.ptrs)), zoo.LayA)

    VALUES = EDGES + [
        True, False, 0.0, -0.0, 1.0, 1.5, -2.5, 1e10, 1e40, -1e300, 0.1, float('inf'), float('nan'), 1j, Decimal('1.5'), Decimal(1), Fraction(3, 2), Fraction(1),
        None, b'', b'x', b'7', b'a\0b', b'\xff\xfe', bytearray(b'x'), memoryview(b'xy'), u'', u'x', u'7', u'\xe9\u20ac', u'a\0b', u'\ud800', Int(5), Int(1000), Bytes(b'sub'), Str(u'sub'),
        (), (1,), [1], [1, 2], [1, 2, 3], (1, 2, 3, 4), [b'x'], [u'x'], [None], [None, None], [[1]], [[[1]]], [inner], [leaf], [inner, leaf], {}, {'x': 1}, {1: 2}, {b'x': 1}, set([1]), frozenset([200]), range(2),
        [1.5], [300], [-1], [2 ** 64], ['1'], [True],
        weird('Index', '__index__', 3), weird('IntOnly', '__int__', 3), weird('FloatOnly', '__float__', 1.5), weird('Truth', '__bool__', False), weird('Len', '__len__', 2), object(), zoo.Inner, int, undefined,
        inner, leaf, zoo.Inner(), zoo.Empty(), ptrs, zoo.Color.red, zoo.Color.blue, ptrs.li32, ptrs.ltext, ptrs.linner, ptrs.lcolor, ptrs.lli16, ptrs.ldata, ptrs.lf64, ptrs.lu64, ptrs.ltext_u, ptrs.lleaf,
        laya.any_inner, laya.any_text, laya.any_list]
    VALUES += [v for v in enums.__dict__.values() if isinstance(v, type) and hasattr(v, '__members__')][:1]
    for e in enums.__dict__.values():
        if isinstance(e, type) and issubclass(e, type(zoo.Color.red).__mro__[1]) and e is not type(zoo.Color.red):
            VALUES.append(e(0))
            break

    def isnum(v):
        return isinstance(v, (int, float, Decimal, Fraction)) or hasattr(v, '__index__') or hasattr(v, '__float__')

    class Checker(object):
        def __init__(self, name):
            self.name = name
            self.S, self.mod = ctx.schema(name), ctx.load(name)
            self.view = View(self.S, self.mod, ANY)
            self.maker = Maker(self.view)

        # -- did the object keep the argument?
        def params(self, n):
            return self.maker.params(n)

        def field_ok(self, f, arg, got):
            if self.view.nullable(f):
                y = self.S.nodes[f.group].fields[1]
                if arg is None:
                    return got is None
                return got is not None and self.field_ok(y, arg, got)
            if f.group is not None:
                g = self.S.nodes[f.group]
                try:
                    args = list(arg)
                except TypeError:
                    return False
                ch = self.params(g)
                if len(args) != len(ch):
                    return False
                for x, a in zip(ch, args):
                    if a is undefined and x.disc != 0xffff:
                        continue
                    if x.group is None and x.type.kind == 'void':
                        continue
                    if not self.field_ok(x, a, getattr(got, pyname(x.name))):
                        return False
                return True
            return self.value_ok(f.type, arg, got, f.name.endswith('U'))

        def value_ok(self, t, arg, got, uni=False, item=False):
            k = t.kind
            if item and k == 'list' and arg is None:
                return len(got) == 0        # a null list inside a list is an empty list
            if k == 'void':
                return got is None
            if k == 'bool':
                return got is bool(arg)
            if k in INTS or k == 'enum':
                if isinstance(arg, Weird) and hasattr(arg, '__index__'):
                    arg = arg.result
                return isnum(arg) and int(got) == arg
            if k in ('float32', 'float64'):
                if isinstance(arg, (bytes, type(u''))):
                    return False
                try:
                    want = float(arg)
                except (TypeError, ValueError, OverflowError):
                    return False
                return same(got, f32(want) if k == 'float32' else want)
            if k == 'anyPointer':
                return False
            if arg is None:
                return got is None
            if k == 'text' and self.name == 'keys' and isinstance(arg, type(got)):
                return got == arg           # with several text types
            if k == 'text' and uni:
                return isinstance(arg, type(u'')) and isinstance(got, type(u'')) and got == arg
            if k in ('text', 'data'):
                return isinstance(got, bytes) and not isinstance(arg, type(u'')) and got == arg
            if k == 'struct':
                cls = self.view.cls(self.S.nodes[t.id])
                return isinstance(arg, cls) and isinstance(got, cls) and got.dumps() == arg.dumps()
            if k == 'list':
                try:
                    args = list(arg)
                except TypeError:
                    return False
                return len(got) == len(args) and all(self.value_ok(t.elem, a, g, uni, True) for a, g in zip(args, got))
            raise AssertionError(k)

        # -- arguments which must be accepted
        def legal(self, t, v, uni=False):
            k = t.kind
            if k == 'bool':
                return isinstance(v, bool)
            if k in INTS:
                lo, hi = INTS[k]
                return type(v) is int and lo <= v <= hi
            if k == 'enum':
                return type(v) is int and 0 <= v < 2 ** 16 or type(v) is type(zoo.Color.red)
            if k == 'float64':
                return isinstance(v, float) or type(v) is int and abs(v) < 2 ** 63
            if k == 'float32':
                return isinstance(v, float) and (math.isinf(v) or math.isnan(v) or abs(v) < 1e38)
            if k == 'text' and self.name == 'keys':
                return False
            if k == 'text' and uni:
                return type(v) is type(u'') and v != u'\ud800'
            if k in ('text', 'data'):
                return type(v) is bytes and self.name != 'keys'
            return False

        def blank(self, g):
            """the members of a group, those of its unions undefined"""
            return [undefined if y.disc != 0xffff else tuple(self.blank(self.S.nodes[y.group])) if y.group is not None and not self.view.nullable(y) else self.maker.default(g, y)
                    for y in self.params(g)]

        # -- the places where a value can be put
        def places(self, n):
            """[(name, param, function from a value to the argument, legal or None)]"""
            out = []
            for f in self.params(n):
                self.field_places(n, f, pyname(f.name), f, lambda v: v, out)
            return out

        def field_places(self, n, p, name, f, wrap, out):
            if self.view.nullable(f):
                y = self.S.nodes[f.group].fields[1]
                return self.field_places(n, p, name, y, wrap, out)
            if f.group is not None:
                out.append((name, p, wrap, None))
                g = self.S.nodes[f.group]
                ch = self.params(g)
                owner = getattr(self.view.cls(n), pyname(f.name).capitalize(), None) if not n.is_group else None
                for i, x in enumerate(ch):
                    def put(v, i=i, x=x):
                        base = self.blank(g)
                        base[i] = v
                        return wrap(tuple(base))
                    self.field_places(g, p, name + '.' + pyname(x.name), x, put, out)
                return
            self.type_places(p, name, f.type, wrap, out, f.name.endswith('U'))

        def type_places(self, p, name, t, wrap, out, uni, top=True, inbool=False):
            # lists of bools cannot be created: they are always refused
            inbool = inbool or t.kind == 'list' and t.elem.kind == 'bool'
            out.append((name, p, wrap, None if inbool else lambda v: self.legal(t, v, uni)))
            if t.kind == 'list':
                good = self.good(t.elem, uni)
                for i in range(3) if top else (1,):
                    def put(v, i=i):
                        a = [good, good, good]
                        a[i] = v
                        return wrap(a)
                    self.type_places(p, '%s[%d]' % (name, i), t.elem, put, out, uni, False, inbool)
                if top:
                    self.type_places(p, '(%s)' % name, t.elem, lambda v: wrap((v, good)), out, uni, False, inbool)

        def good(self, t, uni):
            k = t.kind
            return {'void': None, 'bool': True, 'float32': 2.5, 'float64': 0.1, 'text': u'g\xe9' if uni else b'good', 'data': b'\0g'}.get(k) if k not in ('struct', 'list', 'enum') and k not in INTS else (
                2 if k == 'enum' else 5 if k in INTS else [] if k == 'list' else self.view.cls(self.S.nodes[t.id])())

        def boollist(self, f):
            t = f.type
            while t is not None and t.kind == 'list':
                t = t.elem
            return t is not None and t.kind == 'bool' and f.type.kind == 'list'

    def others(K, n, skip):
        """arguments for the other fields, all set"""
        kw = {}
        for f in K.params(n):
            if f is skip or f.disc != 0xffff or K.boollist(f):
                continue
            if f.group is None and f.type.kind not in ('anyPointer', 'void'):
                kw[pyname(f.name)] = K.good(f.type, f.name.endswith('U')) if f.type.kind != 'enum' else 1
        return kw

    def attempt(c, K, n, p, what, kw, arg, must, base, ctor=None):
        cls = K.view.cls(n)
        try:
            o = (ctor or cls)(**kw)
        except Exception as e:
            c.check(not isinstance(e, (SystemError, NameError)), '%s: %s' % (what, e.__class__.__name__))
            c.check(not must, '%s was refused: %r' % (what, e))
            c.state(n.name, what, 'refused')
            return
        if p is not None:
            got = getattr(o, pyname(p.name)) if p.group is not None or p.type.kind != 'void' else None
            ok = K.field_ok(p, arg, got) if p.group is not None or p.type.kind != 'void' else True
            c.check(ok, '%s gave %s' % (what, short(got)))
        for f in n.fields:
            if f is not p and f.disc == 0xffff and not K.boollist(f) and pyname(f.name) in base[1]:
                c.check(K.field_ok(f, base[1][pyname(f.name)], getattr(o, pyname(f.name))), '%s changed the field %s: %s' % (what, f.name, short(getattr(o, pyname(f.name)))))
        # an undeclared bit of the message must stay zero
        t = wire.check_created(o.dumps())
        c.check(not any(stray(K, n, t)), '%s set bits which no field owns' % what)
        c.state(n.name, what, 'kept')

    MASKS = {}

    def mask(K, n):
        """the bits of the data section which some field owns"""
        key = (K.name, n.id)
        if key not in MASKS:
            m = bytearray(n.dw * 8)

            def own(n):
                if n.nunion:
                    for b in range(n.tagoff * 16, n.tagoff * 16 + 16):
                        m[b >> 3] |= 1 << (b & 7)
                for f in n.fields:
                    if f.group is not None:
                        own(K.S.nodes[f.group])
                    elif not f.type.is_ptr() and f.type.kind != 'void':
                        w = f.type.bits
                        for b in range(f.offset * w, f.offset * w + w):
                            m[b >> 3] |= 1 << (b & 7)
            own(n)
            MASKS[key] = m
        return MASKS[key]

    def stray(K, n, t):
        return [x & ~y & 0xff for x, y in zip(bytearray(t.data), mask(K, n))]

    def single(K, n, names=None):
        places = K.places(n)

        def fn(c):
            i = c.choose(len(places))
            name, p, wrap, legal = places[i]
            base_kw = others(K, n, p)
            for v in VALUES:
                try:
                    arg = wrap(v)
                except Exception:
                    continue
                if arg is undefined:
                    continue
                kw = dict(base_kw)
                kw[pyname(p.name)] = arg
                must = legal is not None and legal(v)
                attempt(c, K, n, p, '%s(%s=%s)' % (n.name, name, short(v)), kw, arg, must, (None, base_kw))
                if p.disc != 0xffff and (p.group is not None or p.type.kind != 'void'):
                    attempt(c, K, n, p, '%s.new_%s(%s=%s)' % (n.name, pyname(p.name), name, short(v)), kw, arg, must, (None, base_kw), getattr(K.view.cls(n), 'new_' + pyname(p.name)))
        return fn

    def shapes_of_groups(K, n):
        groups = [f for f in K.params(n) if f.group is not None and not K.view.nullable(f)]

        def fn(c):
            f = c.pick(groups)
            g = K.S.nodes[f.group]
            ch = K.params(g)
            base = K.blank(g)
            kw = others(K, n, f)
            for k in range(len(base) + 3):
                if k == len(base):
                    continue
                for fill in (None, 0, 1, undefined, (), b'x'):
                    arg = (base + [fill] * 3)[:k]
                    for arg in (tuple(arg), arg):
                        try:
                            K.view.cls(n)(**dict(kw, **{pyname(f.name): arg}))
                        except Exception as e:
                            c.check(not isinstance(e, (SystemError, NameError)), '%s: %s' % (f.name, e.__class__.__name__))
                            c.step()
                            continue
                        c.fail('%s(%s=%s): %d members instead of %d were accepted' % (n.name, f.name, short(arg), k, len(base)))
            c.state(n.name, f.name)
        return groups and fn

    def several(K, n):
        members = [f for f in K.params(n) if f.disc != 0xffff]

        def value(f):
            if f.group is not None:
                return K.maker.default(n, f)
            return K.good(f.type, f.name.endswith('U')) if f.type.kind != 'void' else None

        def fn(c):
            a = c.choose(len(members))
            b = c.choose(len(members))
            if a == b:
                return
            for va in (value(members[a]), None, 0):
                for vb in (value(members[b]), None, 0):
                    for ctor in (K.view.cls(n), getattr(K.view.cls(n), 'new_' + pyname(members[a].name))):
                        try:
                            ctor(**{pyname(members[a].name): va, pyname(members[b].name): vb})
                        except Exception:
                            c.step()
                            continue
                        c.fail('%s: the members %s and %s were both accepted' % (n.name, members[a].name, members[b].name))
            c.state(n.name, a, b)
        return len(members) > 1 and fn

    def unknown(K, n):
        def fn(c):
            names = {pyname(f.name) for f in K.params(n)}
            for bad in ('nope', 'x__', 'Value', 'self'):
                if bad in names:
                    continue
                try:
                    K.view.cls(n)(**{bad: 1})
                except TypeError:
                    c.step()
                    continue
                c.fail('%s(%s=1) was accepted' % (n.name, bad))
            try:
                K.view.cls(n)(*([None] * (len(names) + 1)))
            except Exception:
                c.step()
            else:
                c.fail('%s: too many positional arguments were accepted' % n.name)
        return fn

    for name in SCHEMAS:
        if ctx.mode == 'pyx' and name in ('keys', 'unions') and not th:
            continue
        K = Checker(name)
        for n in K.S.nodes.values():
            if n.kind != 'struct' or n.is_group or n.name in ('NullC',):
                continue
            try:
                K.view.cls(n)
            except AttributeError:
                continue            # declared in another file
            if any(f.group is None and f.type.kind == 'anyPointer' for f in n.fields):
                continue            # structs with untyped pointers have no constructor
            if K.places(n):
                ctx.explore('%s/%s' % (name, n.name), single(K, n), shard_depth=1)
            for tag, mk in (('groups', shapes_of_groups), ('members', several), ('names', unknown)):
                fn = mk(K, n)
                if fn:
                    ctx.explore('%s-%s/%s' % (name, tag, n.name), fn)
            if th and name != 'defaults':
                ctx.explore('%s-pairs/%s' % (name, n.name), pairs(K, n, attempt, VALUES), shard_depth=1)

    # ---- lengths
    def lengths(c):
        cases = [('lvoid', lambda x: zoo.Ptrs(lvoid=x)), ('named lvoid', lambda x: zoo.LayL(lvoid=x))]
        nm, mk = c.pick(cases[:1] if 'lvoid' not in Z.byname['LayL'].byname else cases)
        k = c.pick([2 ** 28 - 1, 2 ** 29 - 1, 2 ** 29, 2 ** 29 + 1, 2 ** 30, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 35, 2 ** 60, 2 ** 61, 2 ** 62])
        try:
            o = mk(Sized(k))
        except Exception as e:
            c.check(k >= 2 ** 28, '%s: %d items were refused' % (nm, k))
            return
        c.eq(len(o.lvoid), k, '%s: length' % nm)
        c.check(o.n == 0 if hasattr(o, 'n') else True, 'other fields')
        c.state(nm, k)
    ctx.explore('lengths', lengths)

    if th and ctx.mode in ('cpy', 'pypy'):
        def huge(c):
            k = c.pick([2 ** 29 - 2, 2 ** 29 - 1, 2 ** 29])
            f = c.pick(['text', 'data'])
            v = b'z' * k
            try:
                o = zoo.Ptrs(**{f: v})
            except Exception:
                c.check(k + (f == 'text') >= 2 ** 29, '%s of %d bytes was refused' % (f, k))
                return
            c.check(getattr(o, f) == v, '%s of %d bytes: read back %d bytes' % (f, k, len(getattr(o, f))))
        ctx.explore('huge', huge)


def pairs(K, n, attempt, VALUES):
    places = K.places(n)

    def fn(c):
        i = c.choose(len(places))
        j = c.choose(len(places))
        a, b = places[i], places[j]
        if a[1] is b[1] or a[1].disc != 0xffff and b[1].disc != 0xffff:
            return
        few = [v for k, v in enumerate(VALUES) if k % 7 == (i + j) % 7]
        for v in few:
            for w in few:
                x, y = a[2](v), b[2](w)
                kw = {pyname(a[1].name): x, pyname(b[1].name): y}
                try:
                    o = K.view.cls(n)(**kw)
                except Exception as e:
                    c.check(not isinstance(e, (SystemError, NameError)), '%s: %s' % (kw, e.__class__.__name__))
                    c.step()
                    continue
                for p, arg in ((a[1], x), (b[1], y)):
                    from capnpy.struct_ import undefined
                    if arg is undefined or p.group is None and p.type.kind == 'void':
                        continue
                    c.check(K.field_ok(p, arg, getattr(o, pyname(p.name))), '%s(%s): %s reads %s' % (n.name, short(kw), p.name, short(getattr(o, pyname(p.name)))))
                c.state(n.name, i, j)
    return fn
