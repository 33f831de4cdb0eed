"""C15: reflection, constants and annotations report what the schema says."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import wire, refschema
from mc.wire import St, Pl, Pp, Co
from mc.explore import Skip, Violation, same, short
from mc.refschema import T, TARGETS
from mc.view import View, pyname, walk
from mc.shapes import struct_values

MODES = ('cpy', 'pypy', 'pyx')
SHARDS = {'quick': {'cpy': 2, 'pypy': 3, 'pyx': 2}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': 'annotations: every pair of 30 (type, value) x 12 kinds of annotated entity, the entity addressed in every way (class, module, '
             'node, id, field, enumerant), with homonymous annotations nested in structs and in an imported file; node contents and Python names of every field of 8 schemas, '
             'convertCase {on, off} x {file, struct, group, field}; histories: every sequence of 3 queries out of 22 on fresh reflection data; constants: every type x boundary values x '
             '{top level, nested, in a group of nested structs} x textType x reflection data {included, not}, at every distance (step 64 bytes) from the boundary of a segment of the request; '
             'standalone modules: 3 pairs of hash seeds; PyPy: all annotations of an entity at once, convertCase on struct, group and field, all constants in one file, steps of 256 bytes',
    'thorough': 'as quick with sequences of 4 queries and every distance in words'}
ASSUMPTIONS = ['schemas with interfaces are refused by design', 'list constants need the reflection data (NotImplementedError otherwise)', 'field_name is claimed for the fields of the file itself, not of imported ones',
               'annotations of type enum are given as the number', '$Py.key on the field of a group is reported for the field']

ANNS = [  # name, type, value in the schema
    ('aVoid', 'Void', ''), ('aBoolT', 'Bool', '(true)'), ('aBoolF', 'Bool', '(false)'),
    ('aInt8', 'Int8', '(-128)'), ('aInt16', 'Int16', '(-32768)'), ('aInt32', 'Int32', '(-2147483648)'), ('aInt64', 'Int64', '(-9223372036854775808)'),
    ('aU8', 'UInt8', '(255)'), ('aU16', 'UInt16', '(65535)'), ('aU32', 'UInt32', '(4294967295)'), ('aU64', 'UInt64', '(18446744073709551615)'), ('aZero', 'Int32', '(0)'),
    ('aF32', 'Float32', '(1.5)'), ('aF64', 'Float64', '(-0.1)'), ('aInf', 'Float64', '(-inf)'), ('aFZero', 'Float64', '(-0.0)'),
    ('aText', 'Text', '("text")'), ('aEmpty', 'Text', '("")'), ('aUtf', 'Text', '("\\"\u00e8\u20ac")'), ('aData', 'Data', '(0x"00 ff 61")'),
    ('aEnum', 'Color', '(blue)'), ('aEnum0', 'Color', '(red)'), ('aStruct', 'Val', '(x = 5, t = "five", c = green, l = [1, 2], n = (x = 7))'), ('aStruct0', 'Val', '()'),
    ('aLInt', 'List(Int16)', '([1, -2, 300])'), ('aLEmpty', 'List(Int8)', '([])'), ('aLBool', 'List(Bool)', '([true, false, true])'), ('aLText', 'List(Text)', '(["a", "", "bc"])'),
    ('aLStruct', 'List(Val)', '([(x = 1), (t = "z")])'), ('camelName', 'Int8', '(1)')]
ENTS = ['file', 'struct', 'nested', 'field', 'group', 'union', 'member', 'virtual', 'enum', 'enumerant', 'const', 'annotation', 'nestedenum', 'groupfield']

VAL = 'struct Val { x @0 :Int32; t @1 :Text; c @2 :Color; l @3 :List(Int8); n @4 :Val; f @5 :Float64; b @6 :Bool; }\nenum Color { red @0; green @1; blue @2; }\n'


def ch(c, seq, label=str):
    x = c.pick(seq)
    c.note(label(x))
    return x


class Names(View):
    """reads the fields through the names given by the reflection data"""
    def __init__(self, schema, mod, mods=(), r=None):
        View.__init__(self, schema, mod)
        self.mods = dict(mods)
        self.alluni = False
        self.names = {}
        if r is not None:
            for n in schema.nodes.values():
                if n.kind == 'struct' and schema.file_of(n) == schema.main:
                    for f, rf in zip(n.fields, r.get_node(n.id).get_struct_fields() or []):
                        self.names[id(f)] = r.field_name(rf)

    def uni(self, f):
        a = self.annotation(f, 'options')
        return self.alluni or bool(a and refschema._u(a[0], 32, 16) == 2)

    def py(self, f):
        return self.names.get(id(f)) or View.py(self, f)

    def cls(self, n):
        fid = self.S.file_of(n)
        o = self.mod if fid == self.S.main else self.mods[fid]
        for part in self.S.fullname(n).split('.'):
            o = getattr(o, part)
        return o


class Raw(View):
    """capnpy.schema keeps the names of schema.capnp"""
    def py(self, f):
        return f.name

    def pyenum(self, n, i):
        return n.enumerants[i]


def run(ctx):
    import capnpy
    from capnpy.compiler.compiler import DynamicCompiler
    from capnpy.type import Types
    th = ctx.thorough
    full = th or ctx.mode != 'pypy'
    tmp = tempfile.mkdtemp(prefix='c15-')
    uid = [0]

    def newid():
        uid[0] += 1
        return 0xb100000000000000 + uid[0]

    def write(d, name, text):
        with open(os.path.join(d, name), 'wb') as f:
            f.write(('@0x%x;\n' % newid() + text).encode('utf-8'))

    def newdir():
        return tempfile.mkdtemp(dir=tmp)

    class Loaded(object):
        """a schema of a scratch directory, loaded, with its reference model"""
        def __init__(self, d, name='t.capnp', options=None):
            self.dir = d
            self.comp = DynamicCompiler([d, ctx.ws])
            self.mod = self.comp.load_schema(importname='/' + name, pyx=ctx.pyx, options=options and __import__('capnpy.annotate').annotate.Options.from_dict(options))
            self.ref = refschema.compile_schema(os.path.join(d, name), [d, ctx.ws])

    annotate = __import__('capnpy.annotate').annotate

    def as_value(c, view, t, v, want, p):
        """v: the value of an annotation, want: the one of the reference"""
        if t.kind in ('struct', 'list', 'anyPointer'):
            c.check(type(v).__name__ == 'AnyPointer', '%s: %s' % (p, short(v)))
            if t.kind == 'struct':
                view.check_value(c, t, v.as_struct(view.cls(view.S.nodes[t.id])), want, p)
            elif t.kind == 'list':
                e = t.elem
                view.check_list(c, e, v.as_list(view.cls(view.S.nodes[e.id]) if e.kind in ('struct', 'enum') else {'text': bytes, 'data': Types.data}.get(e.kind) or getattr(Types, e.kind)), want, p)
        else:
            if t.kind in ('text', 'data') and want is None:
                want = b''
            c.eq(v, want, p)
            c.check(type(v) is type(want) or t.kind not in ('bool', 'float32', 'float64', 'text', 'data', 'void'), '%s: %r instead of %r' % (p, v, want))

    # ------------------------------------------------------------ annotations x entities
    def entity_text(ent, anns):
        """a file where exactly one kind of entity is annotated"""
        a = lambda e, pre=' ': pre + ' '.join(anns) if e == ent else ''
        out = ['using Py = import "/capnpy/annotate.capnp"; using O = import "/other.capnp"; using topText = .aText;', VAL]
        if ent == 'file':
            out += ['%s;' % x for x in anns]
        out += ['annotation %s(*) :%s;' % (n, t) for n, t, v in ANNS]
        out.append('annotation otherOne(*) :Text; annotation withAnn(*) :Void%s;' % a('annotation'))
        out.append('const k :Int8 = 3%s;' % a('const'))
        out.append('enum E%s { e0 @0; eOne @1%s; e2 @2; }' % (a('enum'), a('enumerant')))
        out.append('struct S%s {' % a('struct'))
        out.append('  plain @0 :Int32; fooBar @1 :Text%s; class @2 :Int8; g :group%s { in1 @3 :Int8%s; in2 @4 :Text; }' % (a('field'), a('group'), a('groupfield')))
        out.append('  u :union%s { one @5 :Void; two @6 :Int8%s; }' % (a('union'), a('member')))
        out.append('  virt @7 :Void $Py.group("plain, class")%s;' % a('virtual'))
        out.append('  struct Nested%s { fooBar @0 :Int8; } enum NE%s { x @0; y @1; } const kk :Int8 = 5; annotation aText(*) :Int32; annotation aNest(*) :Int8; }' % (a('nested'), a('nestedenum')))
        out.append('struct Bare { fooBar @0 :Text; g :group { in1 @1 :Int8; } struct Nested { annotation aText(*) :Text; annotation aNest(*) :Text; } o @2 :O.Other; }')
        return '\n'.join(out) + '\n'

    OTHER = 'struct Other { y @0 :Int8 $aText("imported"); }\nannotation aText(*) :Text; annotation aInt8(*) :Int8;\n'

    def ways(L, r, n):
        """every way of naming the node n"""
        out = [('id', n.id), ('node', r.get_node(n.id))]
        if L.ref.file_of(n) != L.ref.main:
            return out
        if n.kind == 'file':
            return out + [('module', L.mod)]
        if n.kind in ('struct', 'enum', 'annotation') and not (n.kind == 'struct' and n.is_group):
            o = L.mod
            for part in L.ref.fullname(n).split('.'):
                o = getattr(o, part)
            out.append(('class', o))
            if n.kind == 'struct' and n.name != 'Val':
                out.append(('instance', o.from_buffer(b'\0' * 64, 0, 1, 1)))
        if n.kind == 'struct' and n.is_group:
            o = L.mod
            for part in L.ref.fullname(L.ref.nodes[n.scope]).split('.'):
                o = getattr(o, part)
            g = getattr(o.from_buffer(b'\0' * 64, 0, 1, 1), pyname(n.name))
            out.append(('group', g))
        return out

    def entities(L, r, view):
        """(label, object, annotations of the reference)"""
        out = []
        for n in L.ref.nodes.values():
            p = L.ref.fullname(n)
            for w, o in ways(L, r, n):
                out.append(('%s by %s' % (p, w), o, n.annotations))
            node = r.get_node(n.id)
            if n.kind == 'struct':
                fields = node.get_struct_fields() or []
                assert len(fields) == len(n.fields)
                for f, rf, rf2 in zip(n.fields, fields, node.struct.fields or []):
                    out.append(('%s field %s' % (p, f.name), rf, f.annotations))
                    out.append(('%s field %s (plain)' % (p, f.name), rf2, f.annotations))
            elif n.kind == 'enum':
                for i, e in enumerate(node.get_enum_enumerants() or []):
                    out.append(('%s enumerant %s' % (p, n.enumerants[i]), e, n.enumerant_annotations[i]))
        return out

    def ann_classes(L, o):
        """[(label, class, id, type)] of every annotation"""
        out = []
        for n in L.ref.nodes.values():
            if n.kind == 'annotation' and L.ref.file_of(n) == L.ref.main:
                cls = L.mod
                for part in L.ref.fullname(n).split('.'):
                    cls = getattr(cls, part)
                out.append((L.ref.fullname(n), cls, n.id, n.type))
        oref = refschema.compile_schema(os.path.join(L.dir, 'other.capnp'), [L.dir, ctx.ws])
        for n in oref.nodes.values():
            if n.kind == 'annotation' and oref.file_of(n) == oref.main:
                out.append(('O.' + n.name, getattr(o, n.name), n.id, n.type))
        for nm, t in [('key', 'text'), ('group', 'text'), ('nullable', 'void')]:
            out.append(('Py.' + nm, getattr(annotate, nm), getattr(annotate, nm).__capnpy_id__, T(t)))
        return out

    ANNOTS = [['$%s%s' % ('topText' if n == 'aText' else n, v) for n, t, v in ANNS], ['$O.aText("o")'], ['$S.aText(5)', '$Bare.Nested.aText("nested")'],
              ['$topText("first")', '$O.aInt8(3)', '$Bare.Nested.aNest("n")', '$O.aText("second")', '$S.aNest(8)', '$S.aText(6)']]
    if ctx.pyx:
        combos = [(e, ANNOTS[-1] + ['$%s%s' % (n, v) for n, t, v in ANNS if n != 'aText']) for e in (ENTS if th else ['struct', 'field', 'enumerant', 'file'])]
    else:
        combos = [(e, a) for e in ENTS for a in ANNOTS] + [(e, [a]) for e in ENTS for a in ANNOTS[0] if full]

    def annotations(c):
        ent, anns = ch(c, combos, lambda x: '%s %s' % (x[0], ' '.join(x[1])[:60]))
        d = newdir()
        try:
            write(d, 'other.capnp', OTHER)
            write(d, 't.capnp', entity_text(ent, anns))
            L = Loaded(d)
            o = L.comp.load_schema(importname='/other.capnp', pyx=ctx.pyx)
            r = capnpy.get_reflection_data(L.mod)
            view = Names(L.ref, L.mod, {o.__capnpy_id__: o})
            classes = ann_classes(L, o)
            for rnd in (1, 2) if len(anns) > 1 else (1,):
                hits = 0
                for label, obj, want in entities(L, r, view):
                    w = dict(want)
                    for name, cls, aid, t in classes:
                        p = '%s, %s (%s time)' % (label, name, rnd)
                        c.eq(r.has_annotation(obj, cls), aid in w, 'has_annotation of ' + p)
                        if rnd == 1:
                            c.state(label, name, aid in w, repr(w.get(aid)))
                        if aid in w:
                            hits += 1
                            as_value(c, view, t, r.get_annotation(obj, cls), w[aid], p)
                        elif len(anns) > 1:
                            try:
                                v = r.get_annotation(obj, cls)
                            except KeyError:
                                continue
                            c.check(False, 'get_annotation of %s gave %s' % (p, short(v)))
                c.check(hits >= (1 if ent == 'enumerant' else 2) * len(anns), 'only %s annotations found' % hits)
            for n in L.ref.nodes.values():
                if n.kind == 'annotation' and L.ref.file_of(n) == L.ref.main:
                    cls = dict((x[2], x[1]) for x in classes)[n.id]
                    c.eq(cls.__capnpy_id__, n.id, n.name)
                    for t in TARGETS:
                        c.eq(getattr(cls, 'targets_' + t), n.targets[t], '%s.targets_%s' % (n.name, t))
            ctx.sample('%s: %s' % (ent, ' '.join(anns)[:80]))
        finally:
            shutil.rmtree(d)

    ctx.explore('annotations', annotations, shard_depth=1)

    def targets(c):
        """the targets of an annotation: every one of them, and every pair"""
        allt = [t for t in TARGETS]
        d = newdir()
        sets = [(t,) for t in allt] + list(itertools.combinations(allt, 2)) + [tuple(x for x in allt if x != t) for t in allt]
        try:
            write(d, 't.capnp', ''.join('annotation a%d(%s) :Void;\n' % (i, ', '.join(s)) for i, s in enumerate(sets)) + 'annotation star(*) :Void; struct S { annotation inner(struct) :Int8; }\n'
                  'annotation import(field) :Text; struct C { annotation class(field) :Text; x @0 :Int8 $import("imp") $class("cls"); }\n')
            L = Loaded(d)
            for i, s in enumerate(sets):
                for t in allt:
                    c.eq(getattr(getattr(L.mod, 'a%d' % i), 'targets_' + t), t in s, 'targets_%s of %s' % (t, s))
            for t in allt:
                c.eq(getattr(L.mod.star, 'targets_' + t), True, 'targets_%s of *' % t)
                c.eq(getattr(L.mod.S.inner, 'targets_' + t), t == 'struct', 'targets_%s of nested' % t)
            r = capnpy.get_reflection_data(L.mod)
            f, = r.get_node(L.mod.C).get_struct_fields()
            c.eq(r.get_annotation(f, L.mod.import_), b'imp', 'annotation called import')
            c.eq(r.get_annotation(f, L.mod.C.class_), b'cls', 'nested annotation called class')
            c.eq(L.mod.inner, L.mod.S.inner, 'nested annotation at module level')
        finally:
            shutil.rmtree(d)

    ctx.explore('targets', targets)

    # ------------------------------------------------------------ contents and names
    cgr = refschema.compile_schema(os.path.join(ctx.ws, 'capnpy', 'schema.capnp'), [ctx.ws])

    def contents_of(c, mod, filename, include, name):
        from capnpy import schema as sch
        r = capnpy.get_reflection_data(mod)
        raw = subprocess.check_output(['capnp', 'compile', '-o-'] + ['-I' + x for x in include] + [filename])
        tree = wire.decode_message(raw)
        Raw(cgr, sch).check_struct(c, 'CodeGeneratorRequest', r.request, tree, name)
        ref = refschema.Schema(raw)
        for n in ref.nodes.values():
            node = r.get_node(n.id)
            c.eq((node.id, node.displayName), (n.id, n.display.encode()), name)
            for f, rf in zip(n.fields if n.kind == 'struct' else [], node.get_struct_fields() or [] if n.kind == 'struct' else []):
                c.eq(rf.name, f.name.encode(), name)
        return r, ref

    def names(c, mod, r, ref, name, mods=()):
        """the names of the reflection are the ones of the generated classes"""
        view = Names(ref, mod, mods, r)
        for n in ref.nodes.values():
            if n.kind == 'struct' and not n.is_group and ref.file_of(n) == ref.main:
                cls = view.cls(n)
                c.eq(r.get_node(cls).id, n.id, n.name)
                py = [view.py(f) for f in n.fields]
                c.eq(len(set(py)), len(py), 'names of %s' % n.name)
                for f in n.fields:
                    c.check(hasattr(cls, view.py(f)), '%s has no %s' % (n.name, view.py(f)))
                for v in values(ref, n):
                    st = ref.to_wire(n, v)
                    buf = wire.message(st)
                    view.check_struct(c, n, capnpy.loads(buf, cls), st, '%s %s' % (n.name, short(v)))
                # the virtual groups have a node as well
                o = capnpy.loads(wire.message(St()), cls)
                for f in n.fields:
                    vnames = view.virtual(f)
                    if vnames:
                        g = getattr(o, view.py(f))
                        node = r.get_node(type(g))
                        c.eq(node.displayName, (n.display + '.' + f.name).encode(), 'virtual group')
                        c.eq([x.name.decode() for x in node.struct.fields], vnames, 'fields of the virtual group')

    def values(ref, n):
        out = [{}]
        for f in n.fields:
            if f.group is not None:
                out += [{f.name: v} for v in values(ref, ref.nodes[f.group])]
            elif f.type.kind in ('bool',):
                out.append({f.name: not f.default})
            elif f.type.kind in ('text', 'data'):
                out.append({f.name: b'some text'})
            elif f.type.kind.startswith(('int', 'uint')):
                out.append({f.name: 1 if f.default != 1 else 2})
            elif f.type.kind.startswith('float'):
                out.append({f.name: 2.5})
            elif f.type.kind == 'void' and f.disc != 0xffff:
                out.append({f.name: None})
            elif f.type.kind == 'list' and not f.type.elem.is_ptr() and f.type.elem.kind != 'struct':
                out.append({f.name: []})
        return out

    LIST = ['zoo', 'unions', 'enums', 'defaults', 'keys']

    def contents(c):
        nm = ch(c, LIST, str)
        if nm == 'enums':
            mod = ctx.compiler().load_schema(importname='/enums.capnp', pyx=ctx.pyx)
        else:
            mod = ctx.load(nm)
        r, ref = contents_of(c, mod, ctx.schema_file(nm), [ctx.ws, os.path.dirname(ctx.schema_file(nm))], nm)
        if nm != 'enums':
            names(c, mod, r, ref, nm)

    ctx.explore('contents', contents, shard_depth=1)

    def convert(c):
        """names with every placement of convertCase"""
        opts = [ch(c, [None, False, True] if full or w in ('struct', 'group', 'field') else [None], lambda x, w=w: '%s %s' % (w, x)) for w in ('default', 'file', 'struct', 'group', 'field', 'nested')]
        default, fil, struct_, group, field, nested = opts
        a = lambda v: '' if v is None else ' $Py.options(convertCase=%s)' % str(v).lower()
        d = newdir()
        try:
            write(d, 't.capnp', 'using Py = import "/capnpy/annotate.capnp";\n' + ('%s;\n' % a(fil) if fil is not None else '') +
                  'struct S%s { fooBar @0 :Int8%s; lambda @1 :Text; barBaz @2 :Text; aG :group { inG @3 :Int8%s; otherG @4 :Int8; } union { mOne @5 :Int8; mTwo @6 :Text%s; is @7 :Void; } '
                  'nU :group $Py.nullable { isNull @8 :Bool; value @9 :Int8; } virtG @10 :Void $Py.group("fooBar, barBaz"); struct Ne%s { inNest @0 :Int16; HTTPCode @1 :Int8; x2Y @2 :Int8; } }\n'.replace('HTTPCode', 'hTTPCode')
                  % (a(struct_), a(field), a(group), a(field), a(nested)))
            L = Loaded(d, options=None if default is None else dict(version_check=True, convert_case=default, text_type='bytes', include_reflection_data=True))
            r = capnpy.get_reflection_data(L.mod)
            names(c, L.mod, r, L.ref, 'convert')
        finally:
            shutil.rmtree(d)

    if not ctx.pyx:
        ctx.explore('convert', convert, shard_depth=2)

    # ------------------------------------------------------------ histories of queries
    HIST = '''using Py = import "/capnpy/annotate.capnp";
%s
annotation a(*) :Int32; annotation b(*) :Text;
$a(1);
enum E $b("enum") { x @0 $a(10); y @1; }
struct S $a(2) $Py.key("p, q") {
  p @0 :Int32 $a(3); q @1 :Text $b("q");
  g :group $a(4) { r @2 :Int8 $b("r"); s @3 :Int8; }
  k :group $Py.key("t") $b("k") { t @4 :Int8; }
  n :group $Py.nullable $a(5) { isNull @5 :Bool; value @6 :Int8; }
  v @7 :Void $Py.group("p, q") $Py.key("q") $a(6);
  class @8 :Int8;
}
''' % VAL
    hd = newdir()
    write(hd, 't.capnp', HIST)
    H = Loaded(hd)
    rcls = type(capnpy.get_reflection_data(H.mod))
    vcls = type(capnpy.loads(wire.message(St()), H.mod.S).v)
    m = H.mod
    gid = {n.name: n.id for n in H.ref.nodes.values() if n.kind == 'struct' and n.is_group}

    def att(fn):
        def q(r):
            try:
                v = fn(r)
            except KeyError as e:
                return 'KeyError'
            return [x.id for x in v] if isinstance(v, (list, tuple)) else v
        return q

    def field(name):
        return lambda r: [f for f in r.get_node(m.S).get_struct_fields() if f.name == name.encode()][0]
    QUERIES = [
        ('S a', att(lambda r: r.get_annotation(m.S, m.a)), 2), ('S b', att(lambda r: r.has_annotation(m.S, m.b)), False), ('S key', att(lambda r: r.get_annotation(m.S, annotate.key)), b'p, q'),
        ('file a', att(lambda r: r.get_annotation(m, m.a)), 1), ('E b', att(lambda r: r.get_annotation(m.E, m.b)), b'enum'), ('E a', att(lambda r: r.get_annotation(m.E, m.a)), 'KeyError'),
        ('x a', att(lambda r: r.get_annotation(r.get_node(m.E).get_enum_enumerants()[0], m.a)), 10), ('y a', att(lambda r: r.get_annotation(r.get_node(m.E).get_enum_enumerants()[1], m.a)), 'KeyError'),
        ('p a', att(lambda r: r.get_annotation(field('p')(r), m.a)), 3), ('q a', att(lambda r: r.has_annotation(field('q')(r), m.a)), False), ('q b', att(lambda r: r.get_annotation(field('q')(r), m.b)), b'q'),
        ('g a', att(lambda r: r.get_annotation(field('g')(r), m.a)), 4), ('node g a', att(lambda r: r.has_annotation(gid['g'], m.a)), False), ('node k b', att(lambda r: r.has_annotation(gid['k'], m.b)), False),
        ('k key', att(lambda r: r.get_annotation(field('k')(r), annotate.key)), b't'), ('n nullable', att(lambda r: r.get_annotation(field('n')(r), annotate.nullable)), None),
        ('v group', att(lambda r: r.get_annotation(field('v')(r), annotate.group)), b'p, q'), ('v a', att(lambda r: r.get_annotation(field('v')(r), m.a)), 6),
        ('virtual node', att(lambda r: (r.get_node(vcls).displayName.endswith(b'S.v'), len(r.get_node(vcls).struct.fields))[1]), 2),
        ('names', att(lambda r: ' '.join(r.field_name(f) for f in r.get_node(m.S).get_struct_fields())), 'p q g k n v class_'),
        ('name class', att(lambda r: r.field_name(field('class')(r))), 'class_'), ('allnodes', att(lambda r: len(r.allnodes)), len(H.ref.nodes) + 1),
        # the code generator looks for the annotations as well: and it must not change what the others see
        ('generate', att(lambda r: len(r.m.generate()) > 1000), True),
    ]
    def histories(c):
        r = rcls()
        log = []
        for i in range(4 if th else 3):
            name, q, want = ch(c, QUERIES, lambda q: q[0])
            if name == 'generate' and 'generate' in log:
                raise Skip()
            log.append(name)
            c.eq(q(r), want, ' > '.join(log))
            c.state(sorted(set(log)))

    if not ctx.pyx:
        ctx.explore('histories', histories, shard_depth=1)

    # ------------------------------------------------------------ constants
    def const_types():
        ints = []
        for bits in (8, 16, 32, 64):
            ints += [('Int%d' % bits, str(v)) for v in (0, 1, -1, 2 ** (bits - 1) - 1, -2 ** (bits - 1))]
            ints += [('UInt%d' % bits, str(v)) for v in (0, 1, 2 ** bits - 1, 2 ** (bits - 1))]
        out = ints + [('Void', 'void'), ('Bool', 'true'), ('Bool', 'false')]
        out += [('Float32', v) for v in ('0.0', '-0.0', '1.1', '-2.5', 'inf', '-inf', 'nan', '3.4028234663852886e+38', '1.401298464324817e-45')]
        out += [('Float64', v) for v in ('0.0', '-0.0', '1.1', '-2.5', 'inf', '-inf', 'nan', '1.7976931348623157e+308', '5e-324', '12345678901234567890')]
        out += [('Text', v) for v in ('""', '"a"', '"\\""', '"\\n\\t\\\\\'"', '"\u00e8\u20ac\U0001f600"', '"x\\x7f"')]
        out += [('Data', v) for v in ('0x"00"', '0x"ff 00 61 22 27 5c"', '0x"0a"')]
        out += [('Color', v) for v in ('red', 'green', 'blue')]
        out += [('Val', v) for v in ('()', '(x = -1)', '(x = 5, t = "five", c = blue, l = [1, 2, 3], n = (x = 7, t = "", n = ()), f = -1.5, b = true)', '(l = [])', '(n = (n = (n = (t = "deep"))))')]
        out += [('Un', v) for v in ('(a = void)', '(b = 5)', '(c = "text")', '(d = (x = 3))', '(e = (e1 = 4, e2 = "five"))')]
        out += [('Grp', v) for v in ('()', '(g = (a = 1, h = (b = "x")))')]
        return out

    def list_types():
        out = [('List(%s)' % t, v) for t, v in [
            ('Void', '[void, void]'), ('Bool', '[true, false, true, true, false, false, true, false, true]'), ('Int8', '[1, -1, 127, -128]'), ('Int16', '[1, -1]'), ('Int32', '[-2147483648]'),
            ('Int64', '[9223372036854775807, 0]'), ('UInt8', '[255]'), ('UInt16', '[65535, 1]'), ('UInt32', '[4294967295]'), ('UInt64', '[18446744073709551615]'),
            ('Float32', '[1.5, -0.0]'), ('Float64', '[0.1, inf]'), ('Text', '["a", "", "\u00e8"]'), ('Data', '[0x"00 01", 0x"ff"]'), ('Color', '[blue, red]'),
            ('Val', '[(x = 1, t = "a"), (), (l = [4])]'), ('List(Int8)', '[[1], [], [2, 3]]'), ('List(Text)', '[["a"], []]'), ('List(Val)', '[[(x = 1)], [(t = "b"), ()]]'), ('Un', '[(b = 1), (c = "x")]')]]
        out += [('List(%s)' % t, '[]') for t in ('Void', 'Bool', 'Int8', 'Int64', 'Text', 'Val', 'List(Int8)', 'Color')]
        return out

    TYPES = VAL + ('struct Un { union { a @0 :Void; b @1 :Int16; c @2 :Text; d @3 :Val; e :group { e1 @4 :Int8; e2 @5 :Text; } } }\n'
                   'struct Grp { g :group { a @0 :Int8; h :group { b @1 :Text; } } }\n')

    def check_const(c, view, n, v, uni, p):
        t, want = n.type, n.value
        if t.kind == 'void':
            c.eq(v, None, p)
        elif t.kind == 'enum':
            view._enum(c, t, v, want, p)
        elif t.kind == 'text':
            want = b'' if want is None else want
            c.check(same(v, want.decode('utf-8') if uni else want), '%s: %r instead of %r' % (p, v, want))
        elif t.kind == 'data':
            c.check(same(v, want or b''), '%s: %r instead of %r' % (p, v, want))
        elif t.is_ptr():
            view.check_value(c, t, v, want, p, uni)
            if t.kind == 'struct':
                repr(v)
                # the constant is a value like any other
                cls = view.cls(view.S.nodes[t.id])
                view.check_value(c, t, capnpy.loads(v.dumps(), cls), want, p + ' dumped')
                view.check_value(c, t, v.compact(), want, p + ' compacted')
        else:
            c.check(same(v, want), '%s: %r instead of %r' % (p, v, want))
            if t.kind == 'bool':
                c.check(type(v) is bool, '%s: %r' % (p, v))
            elif t.kind.startswith('float'):
                c.check(type(v) is float, '%s: %r' % (p, v))

    def const_file(c, consts, text, refl, pad=0):
        d = newdir()
        try:
            body = 'using Py = import "/capnpy/annotate.capnp"; using O = import "/other.capnp";\n$Py.options(textType=%s);\n$Py.options(includeReflectionData=%s);\n' % (text, refl)
            body = body.replace(');\n$Py.options(', ', ')
            if pad:
                body += 'const pad :Text = "%s";\n' % ('p' * pad)
            body += TYPES
            body += ''.join('const c%d :%s = %s;\n' % (i, t, v) for i, (t, v) in enumerate(consts))
            body += 'struct Outer { x @0 :Int8; %s struct Mid { y @0 :Text; %s } }\n' % (
                ' '.join('const n%d :%s = %s;' % (i, t, v) for i, (t, v) in enumerate(consts)), ' '.join('const m%d :%s = %s;' % (i, t, v) for i, (t, v) in enumerate(consts)))
            body += 'const camelName :Int8 = 4; const class :Text = "keyword"; struct Kw { const lambda :Val = (x = 9); const from :Int8 = 2; x @0 :Int8; }\n'
            body += 'const alias :Val = .c0;\n' if consts[0][0] == 'Val' else ''
            body += 'const imp :O.Thing = (y = 6, k = two); const impe :O.Thing.Kind = two;%s\n' % (' const limp :List(O.Thing) = [(y = 1)];' if refl == 'true' else '')
            write(d, 'other.capnp', 'struct Thing { y @0 :Int8; k @1 :Kind; enum Kind { one @0; two @1; } }\nconst c0 :Int8 = 77;\n')
            write(d, 't.capnp', body)
            L = Loaded(d)
            o = L.comp.load_schema(importname='/other.capnp', pyx=ctx.pyx)
            r = capnpy.get_reflection_data(L.mod) if refl == 'true' else None
            if refl != 'true':
                try:
                    capnpy.get_reflection_data(L.mod)
                except ValueError:
                    pass
                else:
                    c.check(False, 'reflection data although not included')
            view = Names(L.ref, L.mod, {o.__capnpy_id__: o})
            view.alluni = text == 'unicode'
            seen = 0
            for n in L.ref.nodes.values():
                if n.kind != 'const' or L.ref.file_of(n) != L.ref.main:
                    continue
                seen += 1
                obj = L.mod
                parts = L.ref.fullname(n).split('.')
                for part in parts[:-1]:
                    obj = getattr(obj, part)
                import keyword
                nm = parts[-1] + ('_' if keyword.iskeyword(parts[-1]) else '')
                c.state(n.name[:1], text, refl, repr(n.type), repr(n.value), pad)
                check_const(c, view, n, getattr(obj, nm), text == 'unicode', L.ref.fullname(n))
                if r is not None:
                    c.eq(r.get_node(n.id).displayName, n.display.encode('utf-8'), 'node of the constant')
            c.check(seen >= 3 * len(consts), 'only %s constants' % seen)
        finally:
            shutil.rmtree(d)

    plain, lists = const_types(), list_types()

    def constants(c):
        text = ch(c, ['bytes', 'unicode'], str)
        refl = ch(c, ['true', 'false'], lambda x: 'reflection ' + x)
        groups = [plain + (lists if refl == 'true' else [])]
        if not ctx.pyx and full:
            groups += [[x] for x in groups[0]]
        elif (text, refl) in (('unicode', 'true'), ('bytes', 'false')) and not th:
            raise Skip()
        const_file(c, ch(c, groups, lambda g: '%s = %s' % g[0] if len(g) == 1 else 'all'), text, refl)

    ctx.explore('constants', constants, shard_depth=3)

    def padding(c):
        """the constants at every distance from the end of a segment of the request"""
        pad = ch(c, list(range(1, 8192, 8 if th else 64 if full else 256)), lambda x: 'pad %d' % x)
        refl = ch(c, ['true', 'false'], lambda x: 'reflection ' + x)
        consts = [('Val', '(x = 5, t = "five", c = blue, l = [1, 2, 3], n = (x = 7, t = "seven", n = ()), b = true)'), ('Text', '"text"')]
        if refl == 'true':
            consts += [('List(Int16)', '[1, 2, 3, 4, 5]'), ('List(Val)', '[(x = 1, t = "a"), (l = [4])]'), ('List(Text)', '["a", "b"]')]
        const_file(c, consts, 'bytes', refl, pad)

    if not ctx.pyx:
        ctx.explore('padding', padding, shard_depth=1)

    # ------------------------------------------------------------ standalone modules
    SCRIPT = '''
import sys
sys.path.insert(0, %r)
import capnpy, json, importlib
import t
r = capnpy.get_reflection_data(t)
from capnpy import annotate
out = []
for cls in (t, t.S, t.E, t.S.v_cls if hasattr(t.S, 'v_cls') else t.S_v):
    n = r.get_node(cls)
    out.append([str(n.displayName.decode()).split(':')[-1], n.id if n.displayName.find(b'.v') < 0 else 0, r.has_annotation(cls, t.a)])
for f in r.get_node(t.S).get_struct_fields():
    out.append([r.field_name(f), r.has_annotation(f, t.a), r.has_annotation(f, annotate.key)])
out.append([t.S(p=1, q=b"x").v.p, hash(t.S(p=1, q=b"x")) is not None])
print(json.dumps(out))
'''

    def standalone(c):
        seeds = ch(c, [('1', '2'), ('0', '7'), ('3', '3')], str)
        d = newdir()
        try:
            write(d, 't.capnp', HIST)
            env = dict(os.environ, PYTHONPATH=os.pathsep.join([ctx.ws] + sys.path[1:1]), PYTHONHASHSEED=seeds[0])
            p = subprocess.run([sys.executable, '-m', 'capnpy', 'compile', os.path.join(d, 't.capnp'), '--no-pyx'], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            c.eq(p.returncode, 0, 'capnpy compile: %s' % p.stdout.decode()[-500:])
            env['PYTHONHASHSEED'] = seeds[1]
            p = subprocess.run([sys.executable, '-c', SCRIPT % d], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            c.eq(p.returncode, 0, 'querying the standalone module: %s' % p.stderr.decode()[-600:])
            got = json.loads(p.stdout.decode())
            ref = refschema.compile_schema(os.path.join(d, 't.capnp'), [ctx.ws])
            S = ref.byname['S']
            want = [['t.capnp', ref.main, True], ['S', S.id, True], ['E', ref.byname['E'].id, False], ['S.v', 0, False]]
            for i, w in enumerate(want):
                c.eq((got[i][0].endswith(w[0]), got[i][1], got[i][2]), (True, w[1], w[2]), 'entity %d' % i)
            c.eq(got[4:-1], [['p', True, False], ['q', False, False], ['g', True, False], ['k', False, True], ['n', True, False], ['v', True, True], ['class_', False, False]], 'fields')
            c.eq(got[-1], [1, True], 'virtual group')
        finally:
            shutil.rmtree(d)

    if not ctx.pyx:
        ctx.explore('standalone', standalone)
    shutil.rmtree(tmp, ignore_errors=True)
