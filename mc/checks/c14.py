"""C14: one module per schema, imports resolve to the same types."""
import itertools
import os
import shutil
import tempfile

from mc import wire, refschema

MODES = ('cpy', 'pypy', 'pyx')
SHARDS = {'quick': {'cpy': 3, 'pypy': 3, 'pyx': 2}, 'thorough': {'cpy': 4, 'pypy': 4, 'pyx': 4}}
BOUNDS = {
    'quick': 'import graphs: every directed graph over 3 files, self imports and cycles included (512), each file loaded first; histories: every sequence of 2 loads over 3 files of a chain '
             'and of a cycle x 5 ways of naming the file, and by import name with failing loads before, between and after; usage: 30 ways of using an imported entity x 6 ways of importing it, each '
             'alone; names: every pair of 28 (directory, file name); search paths: every order and presence in 3 directories; pyx mode: 3 graphs of 3-4 files; PyPy: single loads, usage with one load order, graphs of 4 files',
    'thorough': 'as quick with every directed graph over 4 files without self imports (4096) and sequences of 3 loads; pyx mode: 12 graphs'}
ASSUMPTIONS = ['imports are absolute: relative ones are refused by design', 'two paths reaching a file through a symbolic link are two files', 'non-ASCII file names are refused by design',
               'constants of a file which is part of an import cycle do not refer to types of the other files of the cycle']

KINDS = ['importname', 'modname', 'filename', 'relative', 'dotdot']


def run(ctx):
    from capnpy.compiler.compiler import DynamicCompiler
    th = ctx.thorough
    tmp = tempfile.mkdtemp(prefix='c14-')
    uid = [0]
    ids = [0]

    full = th or ctx.mode != 'pypy'

    def newid():
        ids[0] += 1
        return 0xa100000000000000 + ids[0]

    class Tree(object):
        """files in a scratch directory"""
        def __init__(self):
            uid[0] += 1
            self.dir = os.path.join(tmp, 't%d' % uid[0])
            os.mkdir(self.dir)
            self.comp = DynamicCompiler([self.dir, ctx.ws])

        def write(self, name, text):
            fn = os.path.join(self.dir, name)
            if not os.path.isdir(os.path.dirname(fn)):
                os.makedirs(os.path.dirname(fn))
            with open(fn, 'w') as f:
                f.write('@0x%x;\n' % newid() + text)

        def load(self, name, kind='importname'):
            if kind == 'importname':
                kw = {'importname': '/' + name}
            elif kind == 'modname':
                kw = {'modname': name[:-len('.capnp')].replace('/', '.')}
            elif kind == 'filename':
                kw = {'filename': os.path.join(self.dir, name)}
            elif kind == 'dotdot':
                kw = {'filename': os.path.join(self.dir, 'nowhere', '..', name)}
            else:
                cwd = os.getcwd()
                os.chdir(self.dir)
                try:
                    return self.comp.load_schema(filename=name, pyx=ctx.pyx)
                finally:
                    os.chdir(cwd)
            return self.comp.load_schema(pyx=ctx.pyx, **kw)

        def ref(self, name):
            return refschema.compile_schema(os.path.join(self.dir, name), [self.dir, ctx.ws])

        def close(self):
            shutil.rmtree(self.dir)

    def file_text(i, targets, names, alias=True):
        """the file i, importing the targets; every file defines the same names"""
        out = []
        ref = {}
        for j in targets:
            if alias:
                out.append('using F%d = import "/%s";' % (j, names[j]))
                ref[j] = 'F%d' % j
            else:
                ref[j] = '(import "/%s")' % names[j]
        out.append('enum E { a @0; b @1; c%d @2; }' % i)
        out.append('struct S {')
        out.append('  v @0 :Int64; e @1 :E; le @2 :List(E); n @3 :Nest; ln @4 :List(Nest);')
        k = 5
        for j in targets:
            for name, t in [('f', '%s.S'), ('lf', 'List(%s.S)'), ('e', '%s.E'), ('le', 'List(%s.E)'), ('n', '%s.S.Nest'), ('ne', '%s.S.Nest.F'), ('ln', 'List(List(%s.S.Nest))')]:
                out.append('  %sx%d @%d :%s;' % (name, j, k, t % ref[j]))
                k += 1
        out.append('  struct Nest { w @0 :Int8; f @1 :F; enum F { p @0; q%d @1; } }' % i)
        out.append('}')
        return '\n'.join(out) + '\n'

    def is_(c, got, want, what):
        c.check(got is want, '%s: %s %s is not %s %s' % (what, getattr(got, '__name__', got), hex(id(got)), getattr(want, '__name__', want), hex(id(want))))

    def check_file(c, mods, i, targets, S, what):
        """the types of mods[i] and the ones it imports"""
        m = mods[i]
        kw = dict(v=7, e=m.E.b, le=[m.E.a, getattr(m.E, 'c%d' % i)], n=m.S.Nest(w=3, f=1), ln=[m.S.Nest(w=1)])
        for j in targets:
            t = mods[j]
            kw.update({'fx%d' % j: t.S(v=40 + j, e=t.E.b), 'lfx%d' % j: [t.S(v=50 + j), t.S(v=60 + j)], 'ex%d' % j: t.E.b, 'lex%d' % j: [t.E.b, getattr(t.E, 'c%d' % j)],
                       'nx%d' % j: t.S.Nest(w=5, f=getattr(t.S.Nest.F, 'q%d' % j)), 'nex%d' % j: getattr(t.S.Nest.F, 'q%d' % j), 'lnx%d' % j: [[t.S.Nest(w=9)], []]})
        import capnpy
        o0 = m.S(**kw)
        buf = o0.dumps()
        st = wire.check_created(buf)
        got = S.from_wire('S', st)
        c.eq((got['v'], got['e'], got['le'], got['n']['w']), (7, 1, [0, 2], 3), what)
        for j in targets:
            c.eq((got['fx%d' % j]['v'], [x['v'] for x in got['lfx%d' % j]], got['ex%d' % j], got['lex%d' % j], got['nx%d' % j]['w'], got['nex%d' % j], [[y['w'] for y in x] for x in got['lnx%d' % j]]),
                 (40 + j, [50 + j, 60 + j], 1, [1, 2], 5, 1, [[9], []]), what)
        for o in (o0, capnpy.loads(buf, m.S)):
            for x, j in [('', i)] + [('x%d' % j, j) for j in targets]:
                t, w = mods[j], '%s.%s' % (what, x)
                is_(c, type(getattr(o, 'e' + x)), t.E, w + ' e')
                is_(c, type(getattr(o, 'le' + x)[1]), t.E, w + ' le')
                is_(c, type(getattr(o, 'n' + x)), t.S.Nest, w + ' n')
                is_(c, type(getattr(o, 'n' + x).f), t.S.Nest.F, w + ' n.f')
                if x:
                    is_(c, type(getattr(o, 'f' + x)), t.S, w + ' f')
                    is_(c, type(getattr(o, 'lf' + x)[1]), t.S, w + ' lf')
                    is_(c, type(getattr(o, 'ln' + x)[0][0]), t.S.Nest, w + ' ln')
                    is_(c, type(getattr(o, 'ne' + x)), t.S.Nest.F, w + ' ne')
                    # what is read out of one message is accepted by another one
                    o2 = t.S(v=getattr(o, 'f' + x).v, e=getattr(o, 'e' + x), n=getattr(o, 'n' + x), ln=getattr(o, 'ln' + x)[0])
                    c.eq((o2.v, int(o2.e), o2.n.w, o2.ln[0].w), (40 + j, 1, 5, 9), w)
                    c.check(o2.e is t.E.b or o2.e == t.E.b, w)

    def check_all(c, tree, names, edges, loaded=None, kinds=('importname',)):
        mods = {}
        for i, name in enumerate(names):
            for kind in kinds:
                if kind == 'modname' and '.' in name[:-6]:
                    continue
                m = tree.load(name, kind)
                if i in mods:
                    is_(c, m, mods[i], 'load of %s by %s' % (name, kind))
                mods[i] = m
            if loaded and i in loaded:
                is_(c, mods[i], loaded[i], 'later load of ' + name)
        c.eq(len({id(m) for m in mods.values()}), len(names), 'distinct modules')
        for i, name in enumerate(names):
            check_file(c, mods, i, edges[i], tree.ref(name), name)

    # ---- graphs
    def graph(names, edges, first, alias=True):
        def fn(c):
            tree = Tree()
            try:
                for i, name in enumerate(names):
                    tree.write(name, file_text(i, edges[i], names, alias))
                m = tree.load(names[first])
                check_all(c, tree, names, edges, {first: m})
            finally:
                tree.close()
        return fn

    def graphs3(c):
        names = c.pick([['a.capnp', 'b.capnp', 'c.capnp'], ['x.capnp', 'd1/x.capnp', 'd2/x.capnp']] if th else [['x.capnp', 'd1/x.capnp', 'c.capnp']])
        bits = [c.flag() for _ in range(9)]
        edges = [[j for j in range(3) if bits[3 * i + j]] for i in range(3)]
        graph(names, edges, c.choose(3) if th else sum(bits) % 3, sum(bits) % 2 == 0)(c)
        c.state('g3', names, edges)

    def graphs4(c):
        names = ['a.capnp', 'b.capnp', 'd/a.capnp', 'e-e.capnp']
        pairs = [(i, j) for i in range(4) for j in range(4) if i != j]
        if th:
            on = [p for p in pairs if c.flag()]
        else:
            on = [p for p in pairs if p[0] < p[1] and c.flag()]
        edges = [[j for j in range(4) if (i, j) in on] for i in range(4)]
        graph(names, edges, len(on) % 4)(c)
        c.state('g4', edges)

    def graphs_pyx(c):
        G = [(['x.capnp', 'd/x.capnp', 'a-b.capnp'], [[1, 2], [], [1]], 0), (['a.capnp', 'b.capnp', 'c.capnp'], [[1], [2], [0, 1]], 0), (['a.capnp', '_b.capnp', '1c.capnp', 'class.capnp'], [[1, 2], [3], [3], []], 0)]
        if th:
            G += [(n, [[1, 2], [0, 2], [2]], f) for n in (['a.capnp', 'b.capnp', 'c.capnp'], ['x.capnp', 'd1/x.capnp', 'd2/x.capnp'], ['a.b.capnp', 'a_b.capnp', 'a+b.capnp']) for f in range(3)]
        names, edges, first = c.pick(G)
        graph(names, edges, first)(c)
        c.state(names, edges, first)

    # ---- histories
    def history(L):
        def fn(c):
            edges = c.pick([[[1], [2], []], [[1], [2], [0]]])
            names = ['p/a.capnp', 'p/b.capnp', 'q/a.capnp']
            tree = Tree()
            try:
                for i, name in enumerate(names):
                    tree.write(name, file_text(i, edges[i], names))
                tree.write('bad.capnp', 'using A = import "/p/a.capnp"; struct S { a @0 :A.S; b @1 :A.Nothing; }')
                tree.write('dep.capnp', 'using A = import "/p/b.capnp"; using D = import "/loop.capnp"; struct S { a @0 :A.S; d @1 :D.S; }')
                tree.write('loop.capnp', 'using A = import "/p/a.capnp"; using D = import "/dep.capnp"; using R = import "rel.capnp"; struct S { a @0 :A.S; d @1 :D.S; r @2 :R.S; }')
                tree.write('rel.capnp', 'struct S { a @0 :Int8; }')
                fails = c.pick([None, 'bad.capnp', 'loop.capnp', 'dep.capnp', 'none.capnp'])
                where = c.choose(L + 1) if fails else 0
                loaded = {}
                hist = []
                for step in range(L + 1):
                    if fails and step == where:
                        for _ in range(2):
                            try:
                                tree.load(fails)
                            except Exception:
                                pass
                            else:
                                c.fail('loading %s succeeded' % fails)
                    if step < L:
                        i, kind = c.choose(3), c.pick(KINDS if th or not fails else KINDS[:1])
                        hist.append((i, kind))
                        m = tree.load(names[i], kind)
                        if i in loaded:
                            is_(c, m, loaded[i], str(hist))
                        loaded[i] = m
                # what was loaded through the imports
                for i in loaded:
                    for j in edges[i]:
                        mods = [x for k, x in vars(loaded[i]).items() if k.endswith('_capnp') or '_capnp_' in k]
                        m = tree.load(names[j])
                        c.check(any(x is m for x in mods), '%s of %s: import of %s' % (hist, fails, names[j]))
                check_all(c, tree, names, edges, loaded, KINDS)
                c.state(edges, fails, where, hist)
            finally:
                tree.close()
        return fn

    # ---- how an entity is used
    # (text inside the struct, top-level text, name, value for the constructor, check)
    USES = [
        ('s', 'u @0 :{r}.S;'), ('list', 'u @0 :List({r}.S);'), ('listlist', 'u @0 :List(List({r}.S));'), ('enum', 'u @0 :{r}.E;'), ('listenum', 'u @0 :List({r}.E);'),
        ('listlistenum', 'u @0 :List(List({r}.E));'), ('nest', 'u @0 :{r}.S.Nest;'), ('listnest', 'u @0 :List({r}.S.Nest);'), ('nestenum', 'u @0 :{r}.S.Nest.F;'), ('listnestenum', 'u @0 :List({r}.S.Nest.F);'),
        ('group', 'g :group {{ u @0 :{r}.S; z @1 :Int8; }}'), ('groupenum', 'g :group {{ u @0 :{r}.E; z @1 :Int8; }}'), ('grouplist', 'g :group {{ u @0 :List({r}.E); z @1 :Int8; }}'),
        ('union', 'union {{ z @0 :Int8; u @1 :{r}.S; }}'), ('unionenum', 'union {{ z @0 :Int8; u @1 :{r}.E; }}'), ('uniongroup', 'union {{ z @0 :Int8; g :group {{ u @1 :List({r}.S); y @2 :Text; }} }}'),
        ('inner', 'struct In {{ u @0 :{r}.S; e @1 :{r}.E; }} u @0 :List(In);'), ('key', 'u @0 :{r}.E; k @1 :Text;'),
        ('nullable', 'u :group $Py.nullable {{ isNull @0 :Bool; value @1 :{r}.E; }}'),
        ('enumdefault', 'u @0 :{r}.E = b;'),
        ('annstruct', 'u @0 :Int8;'), ('annfield', 'u @0 :Int8 $({r}.ann)("hi");'), ('constprim', 'u @0 :Int8;'), ('conststruct', 'u @0 :Int8;'), ('constenum', 'u @0 :Int8;'), ('constlist', 'u @0 :Int8;'),
        ('defconst', 'u @0 :Int8 = {r}.k;'), ('unused', 'u @0 :Int8;'), ('constcopy', 'u @0 :Int8;'), ('typealias', 'u @0 :List(TA); e @1 :EA;'),
    ]
    TOP = {'constprim': 'const c1 :Int8 = {r}.k;', 'conststruct': 'const c1 :{r}.S = (v = 4, e = b);', 'constenum': 'const c1 :{r}.E = b;', 'constlist': 'const c1 :List({r}.E) = [a, b];',
           'constcopy': 'const c1 :{r}.S = {r}.ks;', 'typealias': 'using TA = {r}.S; using EA = {r}.E;'}
    IMPORTS = ['inline', 'using', 'nested', 'alias', 'twice', 'transitive', 'chain']

    def usage(c):
        (name, body), how = c.pick(USES), c.pick(IMPORTS)
        samename = full and c.flag()
        target = 'd/m.capnp' if samename else 'other.capnp'
        tree = Tree()
        try:
            tree.write(target, 'enum E { a @0; b @1; }\nannotation ann(*) :Text;\nconst k :Int8 = 42;\nconst ks :S = (v = 6, e = a);\n'
                       'struct S { v @0 :Int64; e @1 :E; struct Nest { w @0 :Int8; enum F { p @0; q @1; } } }\n')
            tree.write('mid.capnp', 'using T = import "/%s";\nusing S = T.S; using E = T.E; struct Unrelated { x @0 :Int8; }\nconst k :Int8 = T.k; const ks :S = T.ks; annotation ann(*) :Text;\n' % target)
            pre = 'using Py = import "/capnpy/annotate.capnp";\n'
            inpre = ''
            if how == 'inline':
                if name in ('typealias', 'annstruct', 'annfield', 'defconst', 'constprim', 'constcopy'):
                    # the grammar has no such expression
                    pre, r = pre + 'using R = import "/%s";\n' % target, 'R'
                else:
                    r = 'import "/%s"' % target
            elif how == 'using':
                pre, r = pre + 'using R = import "/%s";\n' % target, 'R'
            elif how == 'nested':
                pre, r = pre + 'using R = import "/%s";\n' % target, 'RR'
                pre += 'using RR = R;\n'
            elif how == 'alias':
                if name.startswith(('ann', 'const', 'def', 'unused', 'typealias')):
                    return
                pre, r = pre + 'using import "/%s".S;\nusing import "/%s".E;\n' % (target, target), ''
            elif how == 'twice':
                pre, r = pre + 'using R0 = import "/%s"; using R = import "/d/../%s";\nstruct Tw { x @0 :R0.S; y @1 :R.E; }\n' % (target, target), 'R'
                os.path.isdir(os.path.join(tree.dir, 'd')) or os.mkdir(os.path.join(tree.dir, 'd'))
            elif how == 'transitive':
                pre, r = pre + 'using R = import "/mid.capnp";\n', 'R'
            else:
                pre, r = pre + 'using Md = import "/mid.capnp";\nusing R = Md.T;\n', 'R'
            text = body.format(r=r).replace(' .', ' ').replace(':.', ':').replace('(.', '(').replace('$(%s.ann)' % r, '$%s.ann' % r)
            anns = ''
            if name == 'annstruct':
                anns = '$%s.ann("hi")' % r
            if name == 'key':
                anns = '$Py.key("u, k")'
            text = pre + TOP.get(name, '').format(r=r) + '\nstruct M %s {\n%s\n}\n' % (anns, text)
            tree.write('m.capnp', text)
            S = None
            try:
                S = tree.ref('m.capnp')
            except Exception as e:
                c.fail('harness: %s/%s is refused by capnp: %s\n%s' % (name, how, e, text))
            order = full and c.choose(2)
            if order:
                T = tree.load(target)
                m = tree.load('m.capnp')
            else:
                m = tree.load('m.capnp')
                T = tree.load(target)
            what = '%s/%s' % (name, how)
            s, e, ne = T.S(v=9, e=T.E.b), T.E.b, T.S.Nest.F.q
            V = {'s': s, 'list': [s], 'listlist': [[s], []], 'enum': e, 'listenum': [e], 'listlistenum': [[e], []], 'nest': T.S.Nest(w=4), 'listnest': [T.S.Nest(w=4)], 'nestenum': ne, 'listnestenum': [ne],
                 'union': s, 'unionenum': e, 'key': e, 'nullable': e, 'enumdefault': e, 'typealias': [s]}

            def same(x, want):
                if isinstance(want, list):
                    c.eq(len(x), len(want), what)
                    for a, b in zip(x, want):
                        same(a, b)
                else:
                    is_(c, type(x), type(want), what)
                    if type(want) in (T.S, T.S.Nest):
                        c.eq(bytes(x.dumps()), bytes(want.dumps()), what)
                    else:
                        c.eq(int(x), int(want), what)
            if name in V:
                kw = {'u': V[name]}
                if name == 'typealias':
                    kw['e'] = e
                o = m.M(**kw)
                same(o.u, V[name])
                st = wire.check_created(o.dumps())
                S.from_wire('M', st)
                import capnpy
                same(capnpy.loads(o.dumps(), m.M).u, V[name])
                if name == 'key':
                    c.check(m.M(u=e, k=b'x') == m.M(u=e, k=b'x'), what)
                if name == 'enumdefault':
                    same(m.M().u, e)
                    same(m.M(u=T.E.a).u, T.E.a)
            elif name in ('group', 'groupenum', 'grouplist'):
                v = {'group': s, 'groupenum': e, 'grouplist': [e, e]}[name]
                same(m.M(g=(v, 3)).g.u, v)
            elif name == 'uniongroup':
                same(m.M.new_g(([s], b't')).g.u, [s])
            elif name == 'inner':
                o = m.M(u=[m.M.In(u=s, e=e)])
                same(o.u[0].u, s)
                same(o.u[0].e, e)
            elif name == 'constprim':
                c.eq(m.c1, 42, what)
            elif name == 'conststruct':
                is_(c, type(m.c1), T.S, what)
                c.eq((m.c1.v, int(m.c1.e)), (4, 1), what)
            elif name == 'constcopy':
                is_(c, type(m.c1), T.S, what)
                c.eq((m.c1.v, int(m.c1.e)), (6, 0), what)
            elif name == 'constenum':
                same(m.c1, e)
            elif name == 'constlist':
                same(m.c1, [T.E.a, e])
            elif name == 'defconst':
                c.eq(m.M().u, 42, what)
            else:
                c.eq(m.M(u=4).u, 4, what)
            is_(c, tree.load(target, 'filename'), T, what)
            is_(c, tree.load('m.capnp', 'dotdot'), m, what)
            c.state(name, how, samename, order)
        finally:
            tree.close()

    # ---- names of the files
    NAMES = ['x', 'x-y', 'x_y', 'x.y', 'x+y', 'xPLUSy', '_x', '__x__', '1x', 'x y', 'class', 'X', 'annotate', 'capnpy', 'm', 'x_capnp', 'S', 'E', 'x_capnp_2', 'types', 'None', 'x,y', 'x@y', 'x(y']

    def names(c):
        base = [(d, n) for d in ('', 'd/') for n in (NAMES if d == '' or th else NAMES[:4] + ['m', 'annotate'])]
        i = c.choose(len(base))
        j = c.choose(len(base))
        if j <= i:
            return
        fn = ['m.capnp'] + [d + n + '.capnp' for d, n in (base[i], base[j])]
        if len(set(fn)) < 3:
            return
        if len({x.lower() for x in fn}) < 3 and not th:
            pass
        tree = Tree()
        try:
            for k, x in enumerate(fn):
                tree.write(x, file_text(k, [[1, 2], [2], []][k], fn).replace('struct S {', 'struct S $Py.key("v") {').replace('enum E', 'using Py = import "/capnpy/annotate.capnp";\nenum E', 1))
            m = tree.load(fn[0])
            check_all(c, tree, fn, [[1, 2], [2], []], {0: m}, ['importname', 'filename', 'modname'])
            mods = [tree.load(x) for x in fn]
            c.check(mods[0].S(v=3) == mods[0].S(v=3) and mods[0].S(v=3) == (3,), 'key')
            c.state(fn)
        finally:
            tree.close()

    # ---- the search path
    def paths(c):
        tree = Tree()
        try:
            order = c.pick(list(itertools.permutations('pqr'))[::1 if full else 2])
            here = {d: [f for f in ('x', 'y') if c.flag()] for d in 'pq'}
            here['r'] = ['x', 'y', 'm']
            for d in 'pqr':
                if d != 'r' or True:
                    for f in here[d]:
                        tree.write('%s/s/%s.capnp' % (d, f), {'x': 'const from :Text = "%s"; struct S { %sx @0 :Int8; }' % (d, d), 'y': 'using X = import "/s/x.capnp";\nconst from :Text = "%s"; struct S { x @0 :X.S; }' % d,
                                                             'm': 'using X = import "/s/x.capnp"; using Y = import "/s/y.capnp";\nstruct S { x @0 :X.S; y @1 :Y.S; }'}[f])
            comp = DynamicCompiler([os.path.join(tree.dir, d) for d in order] + [ctx.ws])
            want = {f: [d for d in order if f in here[d]][0] for f in 'xy'}
            what = 'path %s, files %s' % (order, here)
            first = c.choose(3) if full else 0
            L = lambda f, k='importname': comp.load_schema(pyx=ctx.pyx, **({'importname': '/s/%s.capnp' % f} if k == 'importname' else {'modname': 's.' + f}))
            L('xym'[first])
            x, y, m = L('x'), L('y'), L('m')
            for f, mod in zip('xym', (x, y, m)):
                is_(c, L(f, 'modname'), mod, what)
            c.eq(mod_from(x), want['x'], what + ' x')
            c.eq(mod_from(y), want['y'], what + ' y')
            sx = x.S(**{want['x'] + 'x': 5})
            o = m.S(x=sx, y=y.S(x=sx))
            is_(c, type(o.x), x.S, what)
            is_(c, type(o.y), y.S, what)
            is_(c, type(o.y.x), x.S, what)
            # a file which is reached by its name is not another one
            for d in 'pqr':
                for f in here[d]:
                    mod = comp.load_schema(filename=os.path.join(tree.dir, d, 's', f + '.capnp'), pyx=ctx.pyx)
                    if f != 'm':
                        c.eq(mod_from(mod), d, what)
                        c.eq(mod is {'x': x, 'y': y}[f], want[f] == d, what + ' by file name: ' + d + f)
            c.state(order, str(here), first)
        finally:
            tree.close()

    def mod_from(m):
        v = getattr(m, 'from', None) or getattr(m, 'from_', None)
        return v.decode() if isinstance(v, bytes) else v

    try:
        if ctx.pyx:
            ctx.explore('graphs', graphs_pyx, shard_depth=1)
        else:
            # the code is the same on both interpreters, and compiling is slow on PyPy
            if full:
                ctx.explore('graphs of 3 files', graphs3, shard_depth=8)
            ctx.explore('graphs of 4 files', graphs4, shard_depth=4)
            ctx.explore('histories', history(3 if th else 2 if full else 1), shard_depth=4)
            if full:
                ctx.explore('names', names, shard_depth=2)
            ctx.explore('usage', usage, shard_depth=2)
            ctx.explore('search path', paths, shard_depth=3)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
