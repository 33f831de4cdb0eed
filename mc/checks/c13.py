"""C13: compilation options apply to exactly the scope they annotate; names are usable."""
import itertools
import keyword
import os
import shutil
import tempfile

from mc import wire, refschema
from mc.wire import St
from mc.explore import short

MODES = ('cpy', 'pypy', 'pyx')
SHARDS = {'quick': {'cpy': 2, 'pypy': 3, 'pyx': 3}, 'thorough': {'cpy': 4, 'pypy': 4, 'pyx': 3}}
BOUNDS = {
    'quick': 'convertCase and textType separately: every assignment of {unset, off, on} to compiler default, file, struct, nested struct and field (3^5 each); both together: every '
             'pair of 9 x 9 values of default and file x at most one annotated scope of the others; every field kind (text, lists and nested lists of text, numbers, groups and '
             'their fields, union members, nullable groups); versionCheck and includeReflectionData: 3 defaults x 3 annotations; names: every identifier of '
             'up to 7 characters over {a b B C 1} converted, every one of up to 4 compiled; every Python keyword and 40 names used by the generated code as the name of '
             'a field of every kind, group, group member, union member, enumerant and constant; pyx mode: 4 option files, and the names as fields of 5 kinds',
    'thorough': 'as quick with both options together at every scope (9^3 per file) and in pyx mode the same files as quick in the other modes'}
ASSUMPTIONS = ['options of the importing file or of load_schema do not apply to imported schemas, which have their own',
               'a name which is already a method of every struct (which, dumps, ...) is not claimed to work as a field name',
               'reserved words of Cython (cdef, cpdef, include, print, exec, staticmethod) are not claimed to work as field names in pyx mode']

CONV = ['', 'convertCase=false', 'convertCase=true']
TEXT = ['', 'textType=bytes', 'textType=unicode']
ALL9 = [(c, t) for c in range(3) for t in range(3)]


def snake(s):
    """the documented conversion, one character at a time"""
    out = ''
    for i, ch in enumerate(s):
        if i and ch.isupper() and (s[i - 1].islower() or s[i - 1].isdigit() or (i + 1 < len(s) and s[i + 1].islower())):
            out += '_'
        out += ch.lower()
    return out


def fixkw(name):
    return name + '_' if keyword.iskeyword(name) else name


def ann(o):
    parts = [x for x in (CONV[o[0]], TEXT[o[1]]) if x]
    return '$Py.options(%s)' % ', '.join(parts) if parts else ''


def combine(*os):
    conv, text = True, 'bytes'
    for c, t in os:
        if c:
            conv = c == 2
        if t:
            text = ['', 'bytes', 'unicode'][t]
    return conv, text


class Ids(object):
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return '@%d' % (self.n - 1)


def struct_body(fieldopts, indent):
    """every kind of field; with each of the annotations in fieldopts"""
    n = Ids()
    out = []
    for k, o in enumerate(fieldopts):
        out.append('fooText%d %s :Text %s;' % (k, n(), ann(o)))
        out.append('barList%d %s :List(Text) %s;' % (k, n(), ann(o)))
    out.append('lstLst %s :List(List(Text));' % n())
    out.append('lstLstAnn %s :List(List(Text)) %s;' % (n(), ann(fieldopts[-1])))
    out.append('someData %s :Data;' % n())
    out.append('numFld %s :Int32; numAnn %s :Int32 %s;' % (n(), n(), ann(fieldopts[-1])))
    out.append('grpGrp :group { inText %s :Text; inAnn %s :Text %s; inLst %s :List(Text); deepGrp :group { dpText %s :Text; dpAnn %s :Text %s; } }' % (
        n(), n(), ann(fieldopts[-1]), n(), n(), n(), ann(fieldopts[-1])))
    out.append('nulVal :group $Py.nullable { isNull %s :Bool; value %s :Int32; }' % (n(), n()))
    out.append('union { unText %s :Text; unAnn %s :Text %s; unGrp :group { ugText %s :Text; ugNum %s :Int8; } unNum %s :Int64; }' % (n(), n(), ann(fieldopts[-1]), n(), n(), n()))
    return ''.join(indent + x + '\n' for x in out)


class File(object):
    """a schema file: [(struct annotation, [(nested annotation, [field annotations])])]"""
    def __init__(self, fileopt, tree, uid):
        self.fileopt, self.tree = fileopt, tree
        out = ['@0x%x;' % (0x9000000000000000 + uid), 'using Py = import "/capnpy/annotate.capnp";']
        if ann(fileopt):
            out.append(ann(fileopt) + ';')
        for i, (o1, fields1, nested) in enumerate(tree):
            out.append('struct Out%d %s {' % (i, ann(o1)))
            out.append(struct_body(fields1, '  '))
            for j, (o2, fields2) in enumerate(nested):
                out.append('  struct Nest%d %s {' % (j, ann(o2)))
                out.append(struct_body(fields2, '    '))
                out.append('  }')
            out.append('}')
        self.text = '\n'.join(out) + '\n'


def run(ctx):
    import capnpy
    from capnpy.annotate import Options, TextType
    from capnpy.convert_case import from_camel_case
    from capnpy.compiler.compiler import DynamicCompiler
    import capnpy.struct_
    th = ctx.thorough
    tmp = tempfile.mkdtemp(prefix='c13-')
    uid = [0]

    def options(d):
        kw = {}
        if d[0]:
            kw['convert_case'] = d[0] == 2
        if d[1]:
            kw['text_type'] = [None, TextType.bytes, TextType.unicode][d[1]]
        return Options(**kw) if kw else None

    def load(text, opts=None):
        uid[0] += 1
        fn = os.path.join(tmp, 'm%d.capnp' % uid[0])
        with open(fn, 'w') as f:
            f.write(text)
        comp = DynamicCompiler([ctx.ws])
        return comp.load_schema(filename=fn, pyx=ctx.pyx, options=opts), refschema.compile_schema(fn, [ctx.ws])

    def text(kind, v):
        return v.encode('utf-8') if kind == 'bytes' else v

    def names_of(cls):
        return {x for x in dir(cls) if not x.startswith('_')}

    BASE = names_of(capnpy.struct_.Struct)

    def check_class(c, cls, base, fieldopts, what):
        """base: options of every enclosing scope"""
        conv0, text0 = combine(*base)
        conv1, text1 = combine(*(base + [fieldopts[-1]]))
        expected = {}

        def nm(name, conv):
            return snake(name) if conv else name

        def declare(name, conv, member=False, ptr=False, group=False):
            py = nm(name, conv)
            expected[py] = name
            if member:
                expected['is_' + py] = expected['new_' + py] = name
            if ptr:
                expected['get_' + py] = expected['has_' + py] = name
            if group:
                expected[py.capitalize()] = name
            return py
        kw = {}
        s = u'\xe9\u20ac'
        for k, o in enumerate(fieldopts):
            cv, tt = combine(*(base + [o]))
            kw[declare('fooText%d' % k, cv, ptr=True)] = text(tt, s + str(k))
            kw[declare('barList%d' % k, cv, ptr=True)] = [text(tt, s), text(tt, u'x')]
        kw[declare('lstLst', conv0, ptr=True)] = [[text(text0, s)], []]
        kw[declare('lstLstAnn', conv1, ptr=True)] = [[text(text1, s)], []]
        kw[declare('someData', conv0, ptr=True)] = b'\xff'
        kw[declare('numFld', conv0)] = 5
        kw[declare('numAnn', conv1)] = 6
        grp = declare('grpGrp', conv0, group=True)
        kw[grp] = (text(text0, s), text(text1, s + u'a'), [text(text0, s)], (text(text0, s), text(text1, s)))
        kw[declare('nulVal', conv0, group=True)] = 9
        un = [declare('unText', conv0, True, True), declare('unAnn', conv1, True, True), declare('unGrp', conv0, True, group=True), declare('unNum', conv0, True)]
        vals = [text(text0, s), text(text1, s), (text(text0, s), 3), 4]
        got = names_of(cls) - BASE - {x for x in names_of(cls) if x.startswith('Nest')}
        grpcls = {x for x in got if x[0].isupper()}
        want = {x for x in expected if not x[0].isupper()}
        c.eq(sorted(got - grpcls), sorted(want), what + ': names')
        lo = {x.lower() for x in expected if x[0].isupper()}
        c.check(grpcls and {x.lower() for x in grpcls} <= {x.lower() for x in expected} | {'un_grp', 'ungrp', 'nulval', 'nul_val'}, '%s: group names %s' % (what, sorted(grpcls)))
        for u, v in zip(un, vals):
            o = cls(**dict(kw, **{u: v}))
            same(c, o, kw, what, [grp])
            g = getattr(o, grp)
            c.eq([plain(getattr(g, nm('inText', conv0))), plain(getattr(g, nm('inAnn', conv1))), plain(getattr(g, nm('inLst', conv0)))], [plain(x) for x in kw[grp][:3]], what + '.grpGrp')
            d = getattr(g, nm('deepGrp', conv0))
            c.eq([plain(getattr(d, nm('dpText', conv0))), plain(getattr(d, nm('dpAnn', conv1)))], [plain(x) for x in kw[grp][3]], what + '.grpGrp.deepGrp')
            c.eq({x for x in names_of(type(g)) - BASE if not x.startswith(('get_', 'has_')) and not x[0].isupper()}, {nm('inText', conv0), nm('inAnn', conv1), nm('inLst', conv0), nm('deepGrp', conv0)},
                 what + '.grpGrp: names')
            if isinstance(v, tuple):
                g = getattr(o, u)
                c.eq([plain(getattr(g, nm('ugText', conv0))), getattr(g, nm('ugNum', conv0))], [plain(v[0]), 3], what + '.unGrp')
            else:
                c.eq(plain(getattr(o, u)), plain(v), '%s.%s' % (what, u))
            # member names are those of the enum too
            c.eq(str(o.which()), u, what + '.which()')
        c.state(what, conv0, text0, tuple(fieldopts))

    def plain(v):
        if isinstance(v, (bytes, type(u''), int)):
            return (type(v).__name__, v)
        return [plain(x) for x in v]

    def same(c, o, kw, what, skip):
        for k, v in kw.items():
            if k not in skip:
                c.eq(plain(getattr(o, k)), plain(v), '%s.%s' % (what, k))

    def check_file(c, default, f, what):
        mod, S = load(f.text, options(default))
        for i, (o1, fields1, nested) in enumerate(f.tree):
            out = getattr(mod, 'Out%d' % i)
            check_class(c, out, [default, f.fileopt, o1], fields1, '%s/Out%d %s' % (what, i, ann(o1)))
            for j, (o2, fields2) in enumerate(nested):
                check_class(c, getattr(out, 'Nest%d' % j), [default, f.fileopt, o1, o2], fields2, '%s/Out%d %s/Nest%d %s' % (what, i, ann(o1), j, ann(o2)))

    def one_option(axis):
        V = [(v, 0) if axis == 0 else (0, v) for v in range(3)]

        def fn(c):
            d, fo = c.pick(V), c.pick(V)
            tree = [(o1, V, [(o2, V) for o2 in V]) for o1 in V]
            uid[0] += 1
            check_file(c, d, File(fo, tree, uid[0] + 7), 'default %s file %s' % (ann(d), ann(fo)))
        return fn

    def both(c):
        d, fo = c.pick(ALL9), c.pick(ALL9)
        U = (0, 0)
        if th:
            tree = [(o1, ALL9, [(o2, ALL9) for o2 in ALL9]) for o1 in [c.pick(ALL9)]]
        else:
            tree = [(U, ALL9, [(o, [U]) for o in ALL9])] + [(o, [U], [(U, [U])]) for o in ALL9[1:]]
        uid[0] += 1
        check_file(c, d, File(fo, tree, uid[0] + 7), 'default %s file %s' % (ann(d), ann(fo)))

    def few(c):
        """pyx mode: every value of every scope at least once, in four files"""
        d, fo, o1, o2, k = c.pick([((0, 0), (0, 0), (1, 2), (2, 1), [(0, 0), (1, 2)]), ((1, 2), (0, 0), (0, 0), (2, 0), [(2, 1), (0, 0)]), ((0, 2), (1, 1), (0, 2), (0, 0), [(0, 1), (2, 0)]),
                                   ((2, 1), (0, 2), (1, 0), (0, 1), [(0, 2), (1, 0)])])
        uid[0] += 1
        check_file(c, d, File(fo, [(o1, k, [(o2, k)]), ((0, 0), k, [])], uid[0] + 7), 'default %s file %s' % (ann(d), ann(fo)))

    # ---- the options of the whole module
    def module_options(c):
        d, a, which = c.choose(3), c.choose(3), c.choose(2)
        name, py = [('versionCheck', 'version_check'), ('includeReflectionData', 'include_reflection_data')][which]
        uid[0] += 1
        txt = '@0x%x;\nusing Py = import "/capnpy/annotate.capnp";\n' % (0x9100000000000000 + uid[0])
        if a:
            txt += '$Py.options(%s=%s);\n' % (name, ['', 'false', 'true'][a])
        txt += 'struct P { aB @0 :Int32; cText @1 :Text; }\n'
        fn = os.path.join(tmp, 'mo%d.capnp' % uid[0])
        with open(fn, 'w') as f:
            f.write(txt)
        from capnpy.compiler.compiler import DynamicCompiler
        import py as pylib
        opts = Options(**{py: d == 2}) if d else None
        on = a == 2 if a else d != 1
        if which == 1:
            mod = DynamicCompiler([ctx.ws]).load_schema(filename=fn, pyx=ctx.pyx, options=opts)
            try:
                capnpy.get_reflection_data(mod)
            except Exception:
                c.check(not on, 'default %d annotation %d: no reflection data' % (d, a))
            else:
                c.check(on, 'default %d annotation %d: reflection data included' % (d, a))
        else:
            # a module compiled by another version of capnpy is refused iff the check is on
            m, src = DynamicCompiler([ctx.ws]).generate_py_source(pylib.path.local(fn), False, opts)
            src = str(src)
            good = repr(capnpy.__version__)
            src2 = src.replace('__capnpy_version__ = ' + good, "__capnpy_version__ = '0.0.1'")
            c.check(src2 != src, 'harness: the version was not found')
            try:
                ns = {'__name__': 'other', '__schema__': fn, '__compiler': DynamicCompiler([ctx.ws])}
                exec(compile(src2, fn, 'exec'), ns)
            except ImportError:
                c.check(on, 'default %d annotation %d: the version was checked' % (d, a))
            else:
                c.check(not on, 'default %d annotation %d: the version was not checked' % (d, a))
                ns['P'](a_b=1)
        c.state(which, d, a)

    # ---- conversion of names
    def conversion(c):
        L = c.choose(8)
        for t in itertools.product('abBC1', repeat=L):
            s = ''.join(t)
            c.eq(from_camel_case(s), snake(s), 'conversion of %r' % s)
        c.state('conversion', L)

    def compiled_names(c):
        conv = c.choose(2)
        names = [''.join(t) for L in range(1, 5) for t in itertools.product('abBC1', repeat=L) if t[0] in 'ab']
        seen, keep = set(), []
        for s in names:
            if snake(s) not in seen or not conv:
                seen.add(snake(s))
                keep.append(s)
        part = c.choose(4)
        keep = keep[part::4]
        if ctx.pyx:
            keep = keep[::8]
        mod, S = load('@0x%x;\nusing Py = import "/capnpy/annotate.capnp";\nstruct P %s {\n%s}\n' % (0x9200000000000000 + conv * 4 + part, '' if conv else '$Py.options(convertCase=false)', ''.join(
            '  %s @%d :Int8;\n' % (s, i) for i, s in enumerate(keep))))
        n = S.byname['P']
        py = [snake(s) if conv else s for s in keep]
        fix = [s + '_' if keyword.iskeyword(s) else s for s in py]
        o = mod.P(**{s: (i % 251) - 125 for i, s in enumerate(fix)})
        for i, s in enumerate(fix):
            c.eq(getattr(o, s), (i % 251) - 125, s)
        c.eq(names_of(mod.P) - BASE, set(fix), 'names')

    # ---- names with a meaning in Python or in the generated code
    LOWER = [k for k in keyword.kwlist if k[0].islower()]
    SPECIAL = ['self', 'cls', 'pos', 'builder', 'print', 'exec', 'match', 'case', 'type', 'len', 'int', 'bool', 'str', 'repr', 'list', 'property', 'object', 'super', 'ord', 'value', 'name', 'buf', 'offset',
               'ptr', 'seg', 'tag', 'args', 'kwargs', 'struct', 'parts', 'other', 'key', 'res', 'h', 'x', 'p', 'n', 'ns', 'curtag', 'undefined', 'fget', 'cdef', 'cpdef', 'include', 'long', 'char', 'float', 'nogil',
               'data', 'text', 'isinstance', 'staticmethod', 'valueError', 'hash', 'zip', 'map', 'min', 'max', 'range', 'tuple', 'dict', 'set', 'bytes', 'unicode', 'none', 'true', 'false', 'i', 'f']
    ALLNAMES = sorted(set(LOWER + SPECIAL))
    ROLES = ['Int32', 'Text', 'Data', 'List(Int8)', 'Inner', 'Bool', 'Float64', 'Color', 'group', 'ingroup', 'union', 'ungroup', 'uniontext', 'nullable', 'key', 'two']

    def pyn(name):
        name = snake(name)
        return name + '_' if keyword.iskeyword(name) else name

    def body(role, nm):
        if role == 'group':
            return '%s :group { aa @0 :Int32; bb @1 :Text; }' % nm
        if role == 'ingroup':
            return 'grp :group { %s @0 :Int32; bb @1 :Text; sub :group { %s @2 :Text; } }' % (nm, nm)
        if role == 'union':
            return 'union { aa @0 :Int32; %s @1 :Int32; cc @2 :Void; }' % nm
        if role == 'uniontext':
            return 'zz @0 :Int8; union { aa @1 :Int32; %s @2 :Text; cc @3 :Void; }' % nm
        if role == 'ungroup':
            return 'union { aa @0 :Int32; %s :group { x1 @1 :Int32; y1 @2 :Text; } }' % nm
        if role == 'nullable':
            return '%s :group $Py.nullable { isNull @0 :Bool; value @1 :Int32; }' % nm
        if role == 'key':
            return '%s @0 :Int32; zz @1 :Text;' % nm
        if role == 'two':
            return '%s @0 :Void; aa @1 :Int32;' % nm
        return '%s @0 :%s; zzz @1 :Int8; ' % (nm, role)

    def values(role, mod, inner):
        return {'Int32': 5, 'Text': b't', 'Data': b'\xff', 'List(Int8)': [1, 2], 'Inner': inner, 'Bool': True, 'Float64': 1.5, 'Color': 1, 'nullable': 7}[role]

    def special(c):
        role = c.pick(ROLES if th or not ctx.pyx else ['Text', 'Float64', 'ingroup', 'uniontext', 'nullable'])
        names = [x for x in ALLNAMES if x not in BASE]
        if ctx.pyx:
            part = 0
            names = [x for x in names if x not in ('cdef', 'cpdef', 'exec', 'include', 'print', 'staticmethod')]
        else:
            part = c.choose(2)
            names = names[part::2]
        conv = '' if part == 0 else ''
        uid[0] += 1
        txt = '@0x%x;\nusing Py = import "/capnpy/annotate.capnp";\nstruct Inner { zz @0 :Int32; }\nenum Color { red @0; blue @1; }\n' % (0x9300000000000000 + ROLES.index(role) * 4 + part)
        for i, nm in enumerate(names):
            txt += 'struct P%d %s { %s }\n' % (i, '$Py.key("%s, zz")' % nm if role == 'key' else '', body(role, nm))
        mod, S = load(txt)
        bad = []
        for i, nm in enumerate(names):
            cls = getattr(mod, 'P%d' % i)
            py = pyn(nm)
            what = '%s as the name of %s' % (nm, role)
            try:
                if role == 'group':
                    o = cls(**{py: (3, b'g')})
                    c.eq((getattr(o, py).aa, getattr(o, py).bb), (3, b'g'), what)
                    o = cls(getattr(cls, fixkw(py.capitalize()))(aa=4))
                    c.eq(getattr(o, py).aa, 4, what)
                elif role == 'ingroup':
                    o = cls(grp=cls.Grp(**{py: 4, 'bb': b'q', 'sub': (b's',)}))
                    c.eq((getattr(o.grp, py), o.grp.bb, getattr(o.grp.sub, py)), (4, b'q', b's'), what)
                elif role in ('union', 'uniontext'):
                    v = 8 if role == 'union' else b'ut'
                    for o in (cls(**{py: v}), getattr(cls, 'new_' + py)(v) if role == 'union' else getattr(cls, 'new_' + py)(**{py: v})):
                        c.eq(getattr(o, py), v, what)
                        c.check(getattr(o, 'is_' + py)() and not o.is_aa() and not o.is_cc(), what)
                        c.eq(str(o.which()), py, what)
                        c.eq(int(getattr(cls.__tag__, py)), 1, what)
                elif role == 'ungroup':
                    o = getattr(cls, 'new_' + py)((2, b'w'))
                    c.eq((getattr(o, py).x1, getattr(o, py).y1), (2, b'w'), what)
                    c.check(getattr(o, 'is_' + py)(), what)
                elif role == 'two':
                    o = cls(aa=3)
                    c.eq((o.aa, getattr(o, py)), (3, None), what)
                elif role == 'key':
                    o = cls(**{py: 4, 'zz': b'k'})
                    c.check(o == (4, b'k') and hash(o) == hash((4, b'k')) and o != (5, b'k'), what)
                    c.eq(getattr(o, py), 4, what)
                else:
                    v = values(role, mod, mod.Inner(zz=4))
                    for o in (cls(**{py: v}), cls(v)):
                        g = getattr(o, py)
                        c.check(g == v if role != 'Inner' else g.zz == 4, what + ': ' + short(g))
                        if role in ('Text', 'Data', 'List(Int8)', 'Inner'):
                            c.check(getattr(o, 'has_' + py)(), what)
                            getattr(o, 'get_' + py)()
                    if role == 'nullable':
                        c.eq(getattr(cls(**{py: None}), py), None, what)
                o.shortrepr()
                capnpy.loads(o.dumps(), cls)
            except Exception as e:
                if type(e).__name__ == 'Violation':
                    raise
                bad.append('%s: %s: %s' % (what, type(e).__name__, str(e)[:200]))
            c.state(role, nm)
        if bad:
            c.fail('; '.join(bad))

    def clashes(c):
        """fields whose name is that of a member of a group, prefixed"""
        txt = '''@0x9500000000000001;
        using Py = import "/capnpy/annotate.capnp";
        struct A { aB @0 :Int32; a :group { b @1 :Int32; c @2 :Int32; } aC @3 :Text; }
        struct B { a :group { bxCx @0 :Int32; bx :group { cx @1 :Int32; } } aBxCx @2 :Int32; aBx :group { cx @3 :Int32; } }
        struct C { anonymous :group { union { x @0 :Int32; y @1 :Int32; } } union { z @2 :Int32; w @3 :Int32; } }
        struct D { a :group $Py.nullable { isNull @0 :Bool; value @1 :Int32; } aValue @2 :Int32; aIsNull @3 :Int32; }
        struct E { g :group { union { x @0 :Int32; y @1 :Int32; } } gX @2 :Int32; h :group { a @3 :Int32; union { x @4 :Int32; y @5 :Int32; } } hA @6 :Text; gY :group { union { p @7 :Int8; q @8 :Int8; } } }
        '''
        mod, S = load(txt)
        o = mod.A(a_b=1, a=(2, 3), a_c=b't')
        c.eq((o.a_b, o.a.b, o.a.c, o.a_c), (1, 2, 3, b't'), 'A')
        o = mod.B(a=(1, (2,)), a_bx_cx=3, a_bx=(4,))
        c.eq((o.a.bx_cx, o.a.bx.cx, o.a_bx_cx, o.a_bx.cx), (1, 2, 3, 4), 'B')
        for kw in ({'x': 5}, {'y': 6}):
            for kw2 in ({'z': 7}, {'w': 8}):
                o = mod.C(anonymous=mod.C.Anonymous(**kw), **kw2)
                c.eq([str(o.which()), str(o.anonymous.which())], list(kw2) + list(kw), 'C')
                c.eq((getattr(o, list(kw2)[0]), getattr(o.anonymous, list(kw)[0])), (list(kw2.values())[0], list(kw.values())[0]), 'C')
        for a in (None, 4):
            o = mod.D(a=a, a_value=7, a_is_null=8)
            c.eq((o.a, o.a_value, o.a_is_null), (a, 7, 8), 'D')
        o = mod.E(g=mod.E.G(x=1), g_x=2, h=mod.E.H(a=3, y=4), h_a=b'5', g_y=mod.E.G_y(q=6))
        c.eq((o.g.x, o.g_x, o.h.a, o.h.y, o.h_a, o.g_y.q), (1, 2, 3, 4, b'5', 6), 'E')

    def others(c):
        """names of enumerants, constants and types"""
        kind = c.pick(['enumerant', 'const', 'struct', 'enum', 'nested'])
        if kind == 'enumerant':
            names = [x for x in ALLNAMES if x not in ('name', )]
            mod, S = load('@0x9400000000000001;\nenum E { %s }\n' % ' '.join('%s @%d;' % (x, i) for i, x in enumerate(names)))
            for i, x in enumerate(names):
                c.eq(int(getattr(mod.E, pyn(x) if hasattr(mod.E, pyn(x)) else x)), i, 'enumerant ' + x)
        elif kind == 'const':
            names = LOWER + ['self', 'cls', 'pos', 'builder', 'match']
            mod, S = load('@0x9400000000000002;\nstruct S { const inside :Int32 = 4; x @0 :Int32 = 2; y @1 :Text; }\n%s' % ''.join('const %s :Int32 = %d;\n' % (x, i) for i, x in enumerate(names)))
            for i, x in enumerate(names):
                c.eq(getattr(mod, x, None) if not keyword.iskeyword(x) else getattr(mod, x + '_', None), i, 'constant ' + x)
            c.eq(mod.S(x=3, y=b'a').x, 3, 'S')
        else:
            names = ['Struct', 'List', 'Text', 'Int', 'Object', 'Type', 'Property', 'Segment', 'ValueError', 'TypeError', 'Enum', 'BaseEnum', 'Options', 'Types', 'Undefined',
                                                                  'Builder', 'AnyPointer2', 'Module', 'Super']
            if kind == 'enum':
                mod, S = load('@0x9400000000000003;\n%s struct U { %s }\n' % (''.join('enum %s { a @0; b @1; }\n' % x for x in names if x != 'Text' and x != 'List'), ' '.join(
                    'f%d @%d :%s;' % (i, i, x) for i, x in enumerate([x for x in names if x not in ('Text', 'List')]))))
                for i, x in enumerate([x for x in names if x not in ('Text', 'List')]):
                    c.eq(str(getattr(mod.U(**{'f%d' % i: 1}), 'f%d' % i)), 'b', 'enum ' + x)
            else:
                names = [x for x in names if x not in ('Text', 'List')]
                inner = ''.join('struct %s { a @0 :Int32; b @1 :Text; c @2 :List(Int8); d @3 :%s; }\n' % (x, x) for x in names) + 'struct U { %s }\n' % ' '.join(
                    'f%d @%d :%s; l%d @%d :List(%s);' % (i, 2 * i, x, i, 2 * i + 1, x) for i, x in enumerate(names))
                mod, S = load('@0x940000000000000%d;\n%s' % (4 if kind == 'struct' else 5, inner if kind == 'struct' else 'struct Outer { %s }' % inner))
                holder = mod if kind == 'struct' else mod.Outer
                for i, x in enumerate(names):
                    cls = getattr(holder, x) if not keyword.iskeyword(x) else getattr(holder, x + '_')
                    o = cls(a=3, b=b'z', c=[1], d=cls(a=4))
                    u = holder.U(**{'f%d' % i: o, 'l%d' % i: [o]})
                    c.eq((getattr(u, 'f%d' % i).d.a, getattr(u, 'l%d' % i)[0].b), (4, b'z'), 'struct ' + x)
        c.state(kind)

    try:
        if ctx.mode == 'pyx' and not th:
            ctx.explore('few', few, shard_depth=1)
        else:
            ctx.explore('convertCase', one_option(0), shard_depth=2)
            ctx.explore('textType', one_option(1), shard_depth=2)
            ctx.explore('both', both, shard_depth=2)
        ctx.explore('module-options', module_options, shard_depth=1)
        ctx.explore('conversion', conversion, shard_depth=1)
        ctx.explore('compiled-names', compiled_names, shard_depth=2)
        ctx.explore('special-names', special, shard_depth=1)
        ctx.explore('clashes', clashes)
        ctx.explore('other-names', others, shard_depth=1)
    finally:
        shutil.rmtree(tmp)
