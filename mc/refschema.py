"""
Independent schema model: runs the official `capnp compile -o-`, decodes the
CodeGeneratorRequest with our own wire decoder, and converts between Python
values and wire trees.  Does not use capnpy.

Values: int/bool/float, enums as int, Text as bytes, Data as bytes, Void None,
struct/group as dict {capnp field name: value} (missing = default; of a union
only the active member is present), list as list, AnyPointer as wire tree,
null pointers as None.
"""
import struct
import subprocess
from mc import wire
from mc.wire import St, Pl, Pp, Co

PRIM = {2: ('int8', 8, 'b'), 3: ('int16', 16, 'h'), 4: ('int32', 32, 'i'), 5: ('int64', 64, 'q'),
        6: ('uint8', 8, 'B'), 7: ('uint16', 16, 'H'), 8: ('uint32', 32, 'I'), 9: ('uint64', 64, 'Q'),
        10: ('float32', 32, 'f'), 11: ('float64', 64, 'd')}
TARGETS = ['file', 'const', 'enum', 'enumerant', 'struct', 'field', 'union', 'group', 'interface', 'method', 'param', 'annotation']
LISTTAG = {8: 2, 16: 3, 32: 4, 64: 5}


class T(object):
    """a type"""
    def __init__(self, kind, fmt=None, bits=0, elem=None, id=None):
        self.kind, self.fmt, self.bits, self.elem, self.id = kind, fmt, bits, elem, id

    def is_ptr(self):
        return self.kind in ('text', 'data', 'list', 'struct', 'anyPointer', 'interface')

    def __repr__(self):
        return self.kind if self.elem is None else 'List(%r)' % self.elem


class F(object):
    def __repr__(self):
        return '<F %s %r>' % (self.name, getattr(self, 'type', None))


class N(object):
    def __repr__(self):
        return '<N %s>' % self.name


def _u(st, bit, nbits):
    """read an unsigned int at a bit offset, zero if beyond the data section"""
    by = bit // 8
    n = (nbits + 7) // 8
    d = st.data[by:by + n]
    d = d + b'\0' * (n - len(d))
    v = int.from_bytes(d, 'little')
    if nbits < 8:
        v = (v >> (bit % 8)) & ((1 << nbits) - 1)
    return v


def _p(st, i):
    return st.ptrs[i] if i < len(st.ptrs) else None


def _text(n):
    return '' if n is None else n.raw[:-1].decode('utf-8')


def _items(n):
    return [] if n is None else n.items


def _type(st):
    tag = _u(st, 0, 16)
    if tag == 0:
        return T('void')
    if tag == 1:
        return T('bool', bits=1)
    if tag in PRIM:
        name, bits, fmt = PRIM[tag]
        return T(name, fmt, bits)
    if tag == 12:
        return T('text')
    if tag == 13:
        return T('data')
    if tag == 14:
        return T('list', elem=_type(_p(st, 0)))
    if tag == 15:
        return T('enum', 'H', 16, id=_u(st, 64, 64))
    if tag == 16:
        return T('struct', id=_u(st, 64, 64))
    if tag == 17:
        return T('interface', id=_u(st, 64, 64))
    return T('anyPointer')


def _value(st):
    """Value struct -> (kind, python)"""
    tag = _u(st, 0, 16)
    if tag == 0:
        return None
    if tag == 1:
        return bool(_u(st, 16, 1))
    if tag in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11):
        name, bits, fmt = PRIM[tag]
        bit = {8: 16, 16: 16, 32: 32, 64: 64}[bits]
        return struct.unpack('<' + fmt, _u(st, bit, bits).to_bytes(bits // 8, 'little'))[0]
    if tag == 12:
        p = _p(st, 0)
        return None if p is None else p.raw[:-1]
    if tag == 13:
        p = _p(st, 0)
        return None if p is None else p.raw
    if tag == 15:
        return _u(st, 16, 16)
    if tag in (14, 16, 18):
        return _p(st, 0)
    return None


def _annotations(n):
    return [(_u(a, 0, 64), _value(_p(a, 0))) for a in _items(n)]


class Schema(object):
    def __init__(self, cgr_bytes):
        root = wire.decode_message(cgr_bytes)
        self.nodes = {}
        self.byname = {}
        for st in _items(_p(root, 0)):
            n = N()
            n.id = _u(st, 0, 64)
            n.display = _text(_p(st, 0))
            n.prefix = _u(st, 64, 32)
            n.scope = _u(st, 128, 64)
            n.name = n.display[n.prefix:]
            n.annotations = _annotations(_p(st, 2))
            n.kind = ('file', 'struct', 'enum', 'interface', 'const', 'annotation')[_u(st, 96, 16)]
            if n.kind == 'struct':
                n.dw, n.pw = _u(st, 112, 16), _u(st, 192, 16)
                n.is_group = bool(_u(st, 224, 1))
                n.nunion, n.tagoff = _u(st, 240, 16), _u(st, 256, 32)
                n.fields = [self._field(f) for f in _items(_p(st, 3))]
                n.byname = {f.name: f for f in n.fields}
            elif n.kind == 'enum':
                n.enumerants = [_text(_p(e, 0)) for e in _items(_p(st, 3))]
                n.enumerant_annotations = [_annotations(_p(e, 1)) for e in _items(_p(st, 3))]
            elif n.kind == 'const':
                n.type, n.value = _type(_p(st, 3)), _value(_p(st, 4))
            elif n.kind == 'annotation':
                n.type = _type(_p(st, 3))
                n.targets = {t: bool(_u(st, 112 + i, 1)) for i, t in enumerate(TARGETS)}
            self.nodes[n.id] = n
        self.files = [(_u(f, 0, 64), _text(_p(f, 0))) for f in _items(_p(root, 1))]
        self.main = self.files[0][0]
        # the entities of the requested file win over imported ones of the same name
        for n in sorted(self.nodes.values(), key=lambda n: self.file_of(n) == self.main):
            self.byname[self.fullname(n)] = n

    def file_of(self, n):
        while n.kind != 'file' and n.scope in self.nodes:
            n = self.nodes[n.scope]
        return n.id

    def _field(self, st):
        f = F()
        f.name = _text(_p(st, 0))
        f.order = _u(st, 0, 16)
        f.disc = _u(st, 16, 16) ^ 0xffff
        f.annotations = _annotations(_p(st, 1))
        if _u(st, 64, 16) == 0:
            f.group = None
            f.offset = _u(st, 32, 32)
            f.type = _type(_p(st, 2))
            f.default = _value(_p(st, 3))
            f.explicit_default = bool(_u(st, 128, 1))
        else:
            f.group = _u(st, 128, 64)
            f.type = T('group', id=f.group)
            f.default = None
        return f

    def fullname(self, n):
        if n.kind == 'file':
            return n.display
        parent = self.nodes.get(n.scope)
        if parent is None or parent.kind == 'file':
            return n.name
        return self.fullname(parent) + '.' + n.name

    def struct(self, name):
        return self.byname[name]

    # ------------------------------------------------------------ encode

    def to_wire(self, name_or_node, value):
        n = self.byname[name_or_node] if isinstance(name_or_node, str) else name_or_node
        data = bytearray(n.dw * 8)
        ptrs = [None] * n.pw
        self._fill(n, value, data, ptrs)
        return St(bytes(data), ptrs)

    def _fill(self, n, value, data, ptrs):
        unknown = set(value) - set(n.byname)
        assert not unknown, (n, unknown)
        for f in n.fields:
            if f.disc != 0xffff:
                if f.name not in value:
                    continue
                struct.pack_into('<H', data, n.tagoff * 2, f.disc)
            if f.group is not None:
                self._fill(self.nodes[f.group], value.get(f.name) or {}, data, ptrs)
                continue
            if f.name not in value:
                continue          # zero on the wire = default
            self._slot(f, value[f.name], data, ptrs)

    def _slot(self, f, v, data, ptrs):
        t = f.type
        if t.kind == 'void':
            return
        if t.kind == 'bool':
            bit = bool(v) ^ bool(f.default)
            if bit:
                data[f.offset // 8] |= 1 << (f.offset % 8)
            else:
                data[f.offset // 8] &= ~(1 << (f.offset % 8)) & 0xff
        elif t.is_ptr():
            ptrs[f.offset] = self.tree(t, v)
        else:
            nb = t.bits // 8
            raw = int.from_bytes(struct.pack('<' + t.fmt, v), 'little')
            dflt = int.from_bytes(struct.pack('<' + t.fmt, 0 if f.default is None else f.default), 'little')
            data[f.offset * nb:(f.offset + 1) * nb] = (raw ^ dflt).to_bytes(nb, 'little')

    def tree(self, t, v):
        """pointer-typed value -> wire tree"""
        if v is None:
            return None
        if t.kind == 'text':
            return wire.text(v)
        if t.kind == 'data':
            return wire.data(v)
        if t.kind == 'anyPointer':
            return v
        if t.kind == 'struct':
            return v if isinstance(v, St) else self.to_wire(self.nodes[t.id], v)
        assert t.kind == 'list', t
        e = t.elem
        if e.kind == 'void':
            return Pl(0, len(v))
        if e.kind == 'bool':
            raw = bytearray((len(v) + 7) // 8)
            for i, b in enumerate(v):
                if b:
                    raw[i // 8] |= 1 << (i % 8)
            return Pl(1, len(v), bytes(raw))
        if e.kind == 'struct':
            n = self.nodes[e.id]
            items = [x if isinstance(x, St) else self.to_wire(n, x) for x in v]
            dw = max([n.dw] + [x.dw for x in items]) if items and any(isinstance(x, St) for x in v) else n.dw
            pw = max([n.pw] + [x.pw for x in items]) if items and any(isinstance(x, St) for x in v) else n.pw
            return Co(dw, pw, [resize(x, dw, pw) for x in items])
        if e.is_ptr():
            return Pp([self.tree(e, x) for x in v])
        return Pl(LISTTAG[e.bits], len(v), b''.join(struct.pack('<' + e.fmt, x) for x in v))

    # ------------------------------------------------------------ decode

    def from_wire(self, name_or_node, st):
        """St -> dict with every non-union field and the active union members"""
        n = self.byname[name_or_node] if isinstance(name_or_node, str) else name_or_node
        out = {}
        tag = _u(st, n.tagoff * 16, 16) if n.nunion else None
        if tag is not None:
            out['__which__'] = tag
        for f in n.fields:
            if f.disc != 0xffff and f.disc != tag:
                continue
            if f.group is not None:
                out[f.name] = self.from_wire(self.nodes[f.group], st)
            else:
                out[f.name] = self.read_slot(f, st)
        return out

    def read_slot(self, f, st):
        t = f.type
        if t.kind == 'void':
            return None
        if t.kind == 'bool':
            return bool(_u(st, f.offset, 1)) ^ bool(f.default)
        if t.is_ptr():
            return self.untree(t, _p(st, f.offset))
        nb = t.bits // 8
        dflt = int.from_bytes(struct.pack('<' + t.fmt, 0 if f.default is None else f.default), 'little')
        raw = _u(st, f.offset * t.bits, t.bits) ^ dflt
        return struct.unpack('<' + t.fmt, raw.to_bytes(nb, 'little'))[0]

    def untree(self, t, x):
        if x is None:
            return None
        if t.kind == 'text':
            assert isinstance(x, Pl) and x.tag == 2 and x.raw[-1:] == b'\0'
            return x.raw[:-1]
        if t.kind == 'data':
            assert isinstance(x, Pl) and x.tag == 2
            return x.raw
        if t.kind == 'anyPointer':
            return x
        if t.kind == 'struct':
            return self.from_wire(self.nodes[t.id], x)
        e = t.elem
        if e.kind == 'void':
            return [None] * x.count
        if e.kind == 'bool':
            return [bool(x.raw[i // 8] >> (i % 8) & 1) for i in range(x.count)]
        if e.kind == 'struct':
            n = self.nodes[e.id]
            return [self.from_wire(n, it) for it in x.items]
        if e.is_ptr():
            return [self.untree(e, it) for it in x.items]
        assert x.tag == LISTTAG[e.bits]
        return list(struct.unpack('<%d%s' % (x.count, e.fmt), x.raw))


def resize(st, dw, pw):
    d = (st.data + b'\0' * (dw * 8))[:max(dw * 8, 0)]
    p = (st.ptrs + [None] * pw)[:pw]
    return St(d, p)


def compile_schema(filename, include=()):
    cmd = ['capnp', 'compile', '-o-'] + ['-I%s' % d for d in include] + [filename]
    return Schema(subprocess.check_output(cmd, stderr=subprocess.PIPE))


def capnp_convert(fmt, messages, filename, typename, include=(), short=False):
    """Run the official tool over framed messages; returns its raw output."""
    cmd = ['capnp', 'convert', '--quiet'] + (['--short'] if short else []) + [fmt]
    cmd += ['-I%s' % d for d in include] + [filename, typename]
    p = subprocess.run(cmd, input=b''.join(messages), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout, p.stderr
