"""
Compares an object of the implementation, through its public accessors, with the
wire tree it is supposed to represent (as interpreted by the reference schema).
"""
import keyword
import re

from mc.explore import Violation, same, short
from mc.wire import St, Pl, Pp, Co


def pyname(name):
    s = re.sub('(.)([A-Z][a-z]+)', r'\1_\2', name)
    s = re.sub('([a-z0-9])([A-Z])', r'\1_\2', s).lower()
    return s + '_' if keyword.iskeyword(s) or s in ('print', 'exec') and False else s


class View(object):
    def __init__(self, schema, mod, any_types=None):
        self.S, self.mod = schema, mod
        self.any_types = any_types or {}

    def py(self, f):
        """the Python name of a field"""
        return pyname(f.name)

    def uni(self, f):
        """whether the texts of the field are unicode"""
        return f.name.endswith('U')

    def pyenum(self, n, i):
        return pyname(n.enumerants[i])

    def cls(self, n):
        o = self.mod
        for part in self.S.fullname(n).split('.'):
            o = getattr(o, part)
        return o

    def textconv(self, f, v):
        if v is not None and self.uni(f):
            return v.decode('utf-8')
        return v

    # -- expected python value of a list item / scalar
    def check_struct(self, c, n, obj, st, path):
        """obj must read as the struct tree st (None = all defaults)"""
        if isinstance(n, str):
            n = self.S.byname[n]
        if st is None:
            st = St()
        tag = None
        if n.nunion:
            from mc.refschema import _u
            tag = _u(st, n.tagoff * 16, 16)
            self._union(c, n, obj, tag, path)
        for f in n.fields:
            py = self.py(f)
            p = '%s.%s' % (path, py)
            if f.disc != 0xffff and f.disc != tag:
                try:
                    v = getattr(obj, py)
                except ValueError:
                    c.step()
                    continue
                raise Violation('%s: inactive union member gave %s instead of ValueError' % (p, short(v)))
            if self.nullable(f):
                self._nullable(c, f, obj, py, st, p)
            elif f.group is not None:
                self.check_struct(c, self.S.nodes[f.group], getattr(obj, py), st, p)
            elif self.virtual(f):
                self._virtual(c, n, f, getattr(obj, py), st, p)
            else:
                self._field(c, f, obj, py, st, p)

    def annotation(self, f, name):
        """(value,) of the annotation of annotate.capnp, or None"""
        a = self.S.byname.get(name)
        for i, v in f.annotations:
            if a is not None and i == a.id:
                return (v,)

    def nullable(self, f):
        return f.group is not None and self.annotation(f, 'nullable')

    def virtual(self, f):
        """the fields named by a virtual group"""
        a = f.group is None and f.type.kind == 'void' and self.annotation(f, 'group')
        return [x.strip() for x in a[0].decode().split(',')] if a else None

    def null_flag(self, f, st):
        return bool(self.S.read_slot(self.S.nodes[f.group].fields[0], st))

    def _nullable(self, c, f, obj, py, st, p):
        g = self.S.nodes[f.group]
        if self.null_flag(f, st):
            c.eq(getattr(obj, py), None, p)
            return
        v = g.byname['value']
        c.check(getattr(obj, py) is not None, p + ' is None although the flag is not set')
        if v.group is not None:
            self.check_struct(c, self.S.nodes[v.group], getattr(obj, py), st, p)
        else:
            self._field(c, v, obj, py, st, p)

    def _virtual(self, c, n, f, v, st, p):
        names = self.virtual(f)
        for f in n.fields:
            py = self.py(f)
            if f.name not in names:
                c.check(not hasattr(v, py), '%s has the attribute %s which it does not name' % (p, py))
            elif f.group is not None:
                self.check_struct(c, self.S.nodes[f.group], getattr(v, py), st, '%s.%s' % (p, py))
            else:
                self._field(c, f, v, py, st, '%s.%s' % (p, py))

    def _union(self, c, n, obj, tag, path):
        c.eq(int(obj.__which__()) & 0xffff, tag, '%s.__which__()' % path)
        names = {f.disc: self.py(f) for f in n.fields if f.disc != 0xffff}
        w = obj.which()
        c.eq(int(w) & 0xffff, tag, '%s.which()' % path)
        if tag in names:
            c.eq(str(w), names[tag], 'str(%s.which())' % path)
        for d, nm in names.items():
            c.eq(getattr(obj, 'is_' + nm)(), d == tag, '%s.is_%s()' % (path, nm))

    def _field(self, c, f, obj, py, st, p):
        t = f.type
        v = getattr(obj, py)
        if not t.is_ptr():
            want = self.S.read_slot(f, st)
            if t.kind == 'enum':
                self._enum(c, t, v, want, p)
            else:
                c.eq(v, want, p)
            return
        x = st.ptrs[f.offset] if f.offset < len(st.ptrs) else None
        c.eq(getattr(obj, 'has_' + py)(), x is not None, '%s: has_%s()' % (p, py))
        if t.kind == 'anyPointer':
            if x is None:
                c.eq(v, None, p)
            else:
                self._any(c, f, v, x, p)
            return
        if x is None:
            c.eq(v, None, p)
            g = getattr(obj, 'get_' + py)()
            if t.kind == 'text':
                c.eq(g, u'' if self.uni(f) else b'', 'get ' + p)
            elif t.kind == 'data':
                c.eq(g, b'', 'get ' + p)
            elif t.kind == 'list':
                c.eq(len(g), 0, 'len(get %s)' % p)
                c.eq(list(g), [], 'list(get %s)' % p)
            elif t.kind == 'struct':
                self.check_shallow_default(c, self.S.nodes[t.id], g, 'get ' + p)
            return
        uni = self.uni(f)
        self.check_value(c, t, v, x, p, uni)
        self.check_value(c, t, getattr(obj, 'get_' + py)(), x, 'get ' + p, uni)

    def check_shallow_default(self, c, n, g, p):
        """default struct: primitives at their defaults, pointers null"""
        for f in n.fields:
            if f.disc != 0xffff or f.group is not None:
                continue
            v = getattr(g, self.py(f))
            if f.type.is_ptr():
                c.eq(v, None, '%s.%s' % (p, f.name))
            elif f.type.kind == 'enum':
                c.eq(int(v), f.default, '%s.%s' % (p, f.name))
            else:
                c.eq(v, f.default if f.type.kind != 'void' else None, '%s.%s' % (p, f.name))

    def _enum(self, c, t, v, want, p):
        c.eq(int(v), want, p)
        n = self.S.nodes[t.id]
        cls = self.cls(n)
        c.check(isinstance(v, cls), '%s: %r is not a %s' % (p, v, n.name))
        if want < len(n.enumerants):
            c.eq(str(v), self.pyenum(n, want), 'str(%s)' % p)

    def check_value(self, c, t, v, x, p, uni=False):
        """pointer-typed value v against tree x"""
        if t.kind == 'text':
            want = x.raw[:-1]
            c.eq(v, want.decode('utf-8') if uni else want, p)
        elif t.kind == 'data':
            c.eq(v, x.raw, p)
        elif t.kind == 'struct':
            n = self.S.nodes[t.id]
            c.check(isinstance(v, self.cls(n)), '%s: %s is not a %s' % (p, short(v), n.name))
            self.check_struct(c, n, v, x, p)
        elif t.kind == 'list':
            self.check_list(c, t.elem, v, x, p, uni)
        else:
            raise AssertionError(t)

    def count(self, x):
        return x.count if isinstance(x, Pl) else len(x.items)

    def check_list(self, c, e, v, x, p, uni=False):
        n = self.count(x)
        c.eq(len(v), n, 'len(%s)' % p)
        items = list(v)
        c.eq(len(items), n, 'len(list(%s))' % p)
        if e.kind == 'struct':
            for i in range(n):
                self.check_struct(c, self.S.nodes[e.id], v[i], x.items[i], '%s[%d]' % (p, i))
            if n:
                self.check_struct(c, self.S.nodes[e.id], items[-1], x.items[-1], 'list(%s)[-1]' % p)
        elif e.is_ptr():
            for i in range(n):
                y = x.items[i]
                if y is None:
                    if e.kind in ('text', 'data'):
                        c.eq(v[i], None, '%s[%d]' % (p, i))
                    continue
                self.check_value(c, e, v[i], y, '%s[%d]' % (p, i), uni)
        else:
            want = self.S.untree(_L(e), x)
            if e.kind == 'enum':
                for i, w in enumerate(want):
                    self._enum(c, e, items[i], w, '%s[%d]' % (p, i))
            else:
                c.eq(items, want, p)
                if n:
                    c.eq(v[-1], want[-1], '%s[-1]' % p)

    def _any(self, c, f, v, x, p):
        kind = self.any_types.get(f.name)
        if kind is None:
            return
        what, arg = kind
        if what == 'struct':
            n = self.S.byname[arg]
            c.eq(v.is_struct(), True, p + '.is_struct()')
            self.check_struct(c, n, v.as_struct(self.cls(n)), x, p + '.as_struct')
        elif what == 'text':
            c.eq(v.is_text(), True, p + '.is_text()')
            c.eq(v.as_text_bytes(), x.raw[:-1], p + '.as_text_bytes()')
            c.eq(v.as_text_unicode(), x.raw[:-1].decode('utf-8'), p + '.as_text_unicode()')
        elif what == 'list':
            from capnpy.type import Types
            c.eq(v.is_list(), True, p + '.is_list()')
            lst = v.as_list(getattr(Types, arg))
            t = [t for t in self.S_types() if t.kind == arg][0]
            self.check_list(c, t, lst, x, p + '.as_list')

    def S_types(self):
        from mc.refschema import T, PRIM
        return [T(name, fmt, bits) for name, bits, fmt in PRIM.values()]


class _L(object):
    kind = 'list'

    def __init__(self, elem):
        self.elem = elem

    def is_ptr(self):
        return True


def walk(view, n, obj, st, path='', groups=False):
    """every struct object reachable from obj: (path, node, object, tree)"""
    S = view.S
    if isinstance(n, str):
        n = S.byname[n]
    out = [(path, n, obj, st)]
    _walk(view, n, obj, st, path, out, groups)
    return out


def _walk(view, n, obj, st, path, out, groups):
    from mc.refschema import _u
    S = view.S
    tag = _u(st, n.tagoff * 16, 16) if n.nunion else None
    for f in n.fields:
        if f.disc != 0xffff and f.disc != tag:
            continue
        py = pyname(f.name)
        if f.group is not None:
            g = getattr(obj, py)
            if groups:
                out.append(('%s.%s' % (path, py), S.nodes[f.group], g, st))
            _walk(view, S.nodes[f.group], g, st, '%s.%s' % (path, py), out, groups)
            continue
        if not f.type.is_ptr() or f.offset >= len(st.ptrs) or st.ptrs[f.offset] is None:
            continue
        x = st.ptrs[f.offset]
        if f.type.kind == 'struct':
            out += walk(view, S.nodes[f.type.id], getattr(obj, py), x, '%s.%s' % (path, py), groups)
        elif f.type.kind == 'list':
            _walk_list(view, f.type.elem, getattr(obj, py), x, '%s.%s' % (path, py), out, groups)


def _walk_list(view, e, lst, x, path, out, groups):
    if e.kind == 'struct':
        for i, it in enumerate(x.items):
            out += walk(view, view.S.nodes[e.id], lst[i], it, '%s[%d]' % (path, i), groups)
    elif e.kind == 'list':
        for i, it in enumerate(x.items):
            if it is not None:
                _walk_list(view, e.elem, lst[i], it, '%s[%d]' % (path, i), out, groups)
