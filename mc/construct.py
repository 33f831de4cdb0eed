"""Builds objects of the implementation from reference values (the dicts of refschema)."""
from mc.view import pyname


class Maker(object):
    def __init__(self, view, group_style='tuple', enum_style='int', union_style='new', list_style='list'):
        self.view, self.S = view, view.S
        self.group_style, self.enum_style, self.union_style, self.list_style = group_style, enum_style, union_style, list_style

    def node(self, n):
        return self.S.byname[n] if isinstance(n, str) else n

    def params(self, n):
        """constructor parameters: void fields only appear as union members"""
        return [f for f in n.fields if f.group is not None or f.disc != 0xffff or f.type.kind != 'void']

    def struct(self, n, value, positional=False):
        """value: dict of the reference model, possibly partial"""
        if value is None:
            return None
        n = self.node(n)
        cls = self.view.cls(n)
        kw = {}
        member = None
        for f in self.params(n):
            if f.name in value:
                kw[pyname(f.name)] = self.arg(n, f, value[f.name])
                if f.disc != 0xffff:
                    member = f
        if member is not None and self.union_style == 'new':
            if member.type.kind == 'void':
                kw.pop(pyname(member.name))
            return getattr(cls, 'new_' + pyname(member.name))(**kw)
        if positional:
            fs = self.params(n)
            args = []
            for f in fs:
                if pyname(f.name) not in kw:
                    break
                args.append(kw.pop(pyname(f.name)))
            return cls(*args, **kw)
        return cls(**kw)

    def arg(self, n, f, v):
        if self.view.nullable(f):
            x, y = self.S.nodes[f.group].fields
            if not v or v.get('isNull', bool(x.default)):
                return None
            if y.group is not None:
                return self.group(self.S.nodes[f.group], y, v.get('value'))
            return v.get('value', y.default)
        if f.group is not None:
            return self.group(n, f, v)
        return self.value(f.type, v, f.name.endswith('U'))

    def group(self, n, f, v):
        g = self.S.nodes[f.group]
        v = v or {}
        ch = self.params(g)
        kw = {pyname(c.name): self.arg(g, c, v[c.name]) for c in ch if c.name in v}
        if self.group_style == 'ctor' or any(c.disc != 0xffff for c in ch):
            owner = self.view.cls(n) if not n.is_group else None
            if owner is not None:
                return getattr(owner, pyname(f.name).capitalize())(**kw)
        return tuple(kw[pyname(c.name)] if c.name in v else self.default(g, c) for c in ch)

    def default(self, n, f):
        if f.group is not None:
            return self.group(n, f, {}) if not self.view.nullable(f) else self.arg(n, f, {'isNull': bool(self.S.nodes[f.group].fields[0].default)})
        if f.type.kind == 'void':
            return None
        return f.default

    def value(self, t, v, uni=False):
        if v is None:
            return None
        if t.kind == 'text':
            return v.decode('utf-8') if uni else v
        if t.kind == 'enum':
            if self.enum_style == 'int':
                return v
            return self.view.cls(self.S.nodes[t.id])(v)
        if t.kind == 'struct':
            return self.struct(self.S.nodes[t.id], v)
        if t.kind == 'list':
            out = [self.value(t.elem, x, uni) for x in v]
            return tuple(out) if self.list_style == 'tuple' else out
        return v
