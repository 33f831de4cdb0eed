"""C25: schemas built by setuptools behave like dynamically loaded ones and are never stale."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import wire, refschema
from mc.checks import c22
from mc.explore import Skip

MODES = ('cpy', 'pypy', 'pyx')
SHARDS = {'quick': {'cpy': 3, 'pypy': 3, 'pyx': 2}, 'thorough': {'cpy': 3, 'pypy': 3, 'pyx': 2}}
BOUNDS = {
    'quick': 'histories: every sequence of 4 operations (PyPy and pyx mode: 3) out of {edit the first schema, edit the second schema, touch, break, build, build with the other '
             'function}, the last one being a build, on two schemas, with the time of the edit after, or equal to, the time of the last build; options: every combination of the 4 options and of '
             'omitted ones x {capnpify, capnpy_schemas} x 2 schemas; files given as a list or as a pattern; pyx mode: extensions built with 3 sets of options',
    'thorough': 'as quick with sequences of one more operation and every combination of options in pyx mode'}
ASSUMPTIONS = ['a build is driven by the modification times of the schema and of the module, as in make: changing the options alone does not rebuild',
               'two modules are considered to behave the same if mc/cliobs.py cannot tell them apart']


def run(ctx):
    tmp = tempfile.mkdtemp(prefix='c25-')
    old = os.getcwd()
    src = os.path.join(os.path.dirname(ctx.schema_file('zoo')), 'cli')
    tools = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = None
    server = []
    try:
        go(ctx, tmp, src, tools, server)
    finally:
        os.chdir(old)
        for s in server:
            s.stdin.close()
            s.wait()
        shutil.rmtree(tmp, ignore_errors=True)


HEAD = '@0xbf5147cbbecf4%03x;\n'


def schema(k, v):
    """version v of schema k; None is one that does not compile"""
    if v is None:
        return (HEAD + 'struct P { x @0 :NoSuchType; }\n') % (k,)
    return (HEAD + 'struct P { x @0 :Int64; v%d @1 :Text; }\nconst ver :Int32 = %d;\n') % (k, v, v)


def go(ctx, tmp, src, tools, server):
    th = ctx.thorough
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([ctx.ws, tmp]), PYTHONIOENCODING='utf-8', PYTHONHASHSEED='0')
    for k in list(env):
        if k.startswith('CAPNPY_'):
            del env[k]
    ext = '.pyx' if ctx.mode == 'pyx' else '.py'
    pyx = 'auto' if ctx.mode in ('pyx', 'pypy') else False

    def build(cwd, how, files, options=None, pyx=pyx, really=False):
        if not server:
            server.append(subprocess.Popen([sys.executable, os.path.join(tools, 'distrun.py')], cwd=tmp, env=env,
                                           stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
        server[0].stdin.write(json.dumps(dict(cwd=cwd, how=how, files=files, options=options, pyx=pyx, build=really)).encode() + b'\n')
        server[0].stdin.flush()
        return json.loads(server[0].stdout.readline().decode())

    # ---------------------------------------------------------------- histories
    T0 = 1500000000

    def read(fn):
        with open(fn) as f:
            return f.read()

    def history(c):
        d = tempfile.mkdtemp(dir=tmp)
        clock = T0
        names = ['one', 'two']
        version = [1, 1]        # of the schema; negative: it does not compile
        good = [1, 1]
        built = [None, None]    # the version the module was made from
        stamp = [T0, T0]        # time of the schema
        made = [None, None]     # time of the module

        def put(k, v, t):
            fn = os.path.join(d, names[k] + '.capnp')
            with open(fn, 'w') as f:
                f.write(schema(k, v))
            os.utime(fn, (t, t))
            stamp[k] = t
        for k in (0, 1):
            put(k, 1, T0)
        last = (4 if ctx.mode == 'cpy' else 3) + th
        for step in range(last):
            # (the first and the last operations which are not builds are useless)
            builds = ['capnpify', 'schemas']
            op = c.pick(builds if step == last - 1 else (['break0'] if step == 0 else ['edit0', 'edit1', 'same0', 'touch0', 'break0']) + builds, 'op%d' % step)
            clock += 10
            if op == 'edit0' or op == 'edit1':
                k = int(op[4])
                good[k] += 1
                version[k] = good[k]
                put(k, version[k], clock)
            elif op == 'same0':
                if made[0] is None:
                    raise Skip()
                # edited in the same tick of the clock as the last build
                good[0] += 1
                version[0] = good[0]
                put(0, version[0], made[0])
            elif op == 'touch0':
                put(0, version[0] if version[0] > 0 else None, clock)
            elif op == 'break0':
                version[0] = -1
                put(0, None, clock)
            else:
                files = ['one.capnp', 'two.capnp'] if op == 'schemas' or step % 2 else '*.capnp'
                stale = [made[k] is None or stamp[k] >= made[k] for k in (0, 1)]
                before = [(os.stat(os.path.join(d, n + ext)).st_mtime_ns, read(os.path.join(d, n + ext))) if made[k] is not None else None
                          for k, n in enumerate(names)]
                err, exts = build(d, op, files)
                broken = stale[0] and version[0] < 0
                c.check((err is not None) == broken, '%s: error %s' % (op, err))
                for k, n in enumerate(names):
                    fn = os.path.join(d, n + ext)
                    there = os.path.exists(fn)
                    if stale[k] and not broken:
                        c.check(there, '%s has not been built' % n)
                        text = read(fn)
                        c.check('v%d' % version[k] in text and ('ver = %d' % version[k]) in text, '%s is not made from the current schema (version %d)' % (n, version[k]))
                        c.check('v%d' % (version[k] + 1) not in text and 'v%d' % (version[k] - 1) not in text, '%s mixes versions' % n)
                        built[k] = version[k]
                        made[k] = clock
                        os.utime(fn, (clock, clock))
                    elif k == 0 or not broken:
                        # up to date, or the schema is broken: the previous module stays
                        if before[k] is None:
                            c.check(not there, '%s was built from a schema which does not compile' % n)
                        else:
                            c.eq((os.stat(fn).st_mtime_ns, read(fn)), before[k], '%s must not be rebuilt' % n)
                    else:
                        # after the broken one: it may have been built or not
                        if there:
                            t = os.stat(fn).st_mtime
                            if made[k] is None or t != made[k]:
                                text = read(fn)
                                c.check(stale[k] and 'v%d' % version[k] in text, '%s is not made from the current schema' % n)
                                made[k] = clock
                                os.utime(fn, (clock, clock))
                c.state('history', tuple(version), tuple(built), tuple(stale))
        shutil.rmtree(d)
    ctx.explore('history', history, shard_depth=2)

    # ---------------------------------------------------------------- options
    for f in os.listdir(src):
        if f.endswith(('.capnp', '.py')):
            shutil.copy(os.path.join(src, f), tmp)
    S = refschema.compile_schema(os.path.join(tmp, 'mccli.capnp'), [tmp, ctx.ws])
    S2 = refschema.compile_schema(os.path.join(tmp, 'mcclif.capnp'), [tmp, ctx.ws])
    bufs = [wire.message(t, p) for _, t, p in c22.messages(S)]
    corpus = {'mccli': [['Msg', b.hex()] for b in bufs if len(b) < 1000] + [['Extended', wire.message(S.to_wire('Extended', {'value': 4})).hex()]],
              'mcclif': [['Msg', wire.message(S2.to_wire('Msg', v)).hex()] for v in ({}, {'num': 3, 'fooBar': b'f\xc3\xa9', 'textVal': b't', 'rawText': b'r'})] +
                        [['Plain', wire.message(S2.to_wire('Plain', {'camelCase': 4, 'text': b't'})).hex()]]}

    def observe(how, modname, options, d, pyx):
        mf = os.path.join(d, 'messages.json')
        with open(mf, 'w') as f:
            json.dump(corpus[modname], f)
        e = dict(env, PYTHONPATH=os.pathsep.join([ctx.ws, d]))
        p = subprocess.run([sys.executable, os.path.join(tools, 'cliobs.py'), how, modname, 'auto' if pyx == 'auto' else 'False', json.dumps(options), mf],
                           cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            return {'error': p.stderr.decode()[-1500:]}
        return json.loads(p.stdout.decode())

    def fresh():
        d = tempfile.mkdtemp(dir=tmp)
        for f in os.listdir(src):
            if f.endswith(('.capnp', '.py')):
                shutil.copy(os.path.join(src, f), d)
        return d

    VALUES = [('version_check', False, '--no-version-check'), ('convert_case', False, '--no-convert-case'),
              ('text_type', 'unicode', '--text-type=unicode'), ('include_reflection_data', False, '--no-reflection')]

    def options(c):
        if ctx.mode == 'pyx' and not th:
            on = c.pick([(), (1,), (0, 1, 2, 3)], 'options')
            how = ['schemas', 'capnpify', 'schemas'][len(on) % 3]
            modname = 'mccli'
        else:
            on = [i for i in range(4) if c.flag(VALUES[i][0])]
            how = c.pick(['capnpify', 'schemas'])
            modname = c.pick(['mccli', 'mcclif'])
        if ctx.mode == 'pypy' and not th and how == 'capnpify' and len(on) not in (0, 1, 4):
            raise Skip()
        o = {VALUES[i][0]: VALUES[i][1] for i in on}
        opts = [VALUES[i][2] for i in on]
        a, b = fresh(), fresh()
        if modname == 'mccli':
            # its options are the default ones when it is loaded dynamically
            err, _ = build(a, how, ['mccli_other.capnp'], {'version_check': False}, pyx, True)
            c.eq(err, None, 'building mccli_other')
        err, exts = build(a, how, [modname + '.capnp'], o if on or how == 'schemas' else None, pyx, True)
        c.eq(err, None, 'building %s' % modname)
        c.eq(exts, [modname] if ctx.mode == 'pyx' else [], 'extension modules')
        if ctx.mode == 'pyx':
            c.check(any(f.startswith(modname + '.') and f.endswith('.so') for f in os.listdir(a)), 'no extension was built: %s' % os.listdir(a))
        x, y = observe('import', modname, None, a, pyx), observe('load', modname, o, b, pyx)
        for k in sorted(set(x) | set(y)):
            c.eq(x.get(k), y.get(k), '%s %s: %s of the module' % (modname, opts, k))
        c.check('error' not in x, 'error: %s' % x.get('error'))
        c22.facts(c, x, modname, opts)
        shutil.rmtree(a)
        shutil.rmtree(b)
        c.state('options', modname, tuple(opts), how)
    ctx.explore('options', options, shard_depth=5 if ctx.mode != 'pyx' or th else 1)

    # ---------------------------------------------------------------- arguments which must be refused
    def refused(c):
        d = tempfile.mkdtemp(dir=tmp)
        put = os.path.join(d, 'one.capnp')
        with open(put, 'w') as f:
            f.write(schema(0, 1))
        how, files, o = c.pick([('capnpify', 'nothere*.capnp', None), ('capnpify', ['nothere.capnp'], None), ('schemas', ['nothere.capnp'], None),
                                ('capnpify', ['one.capnp'], {'frob': True}), ('schemas', ['one.capnp'], {'frob': True}),
                                ('schemas', ['one.capnp'], {'text_type': 'str'})])
        err, exts = build(d, how, files, o)
        c.check(err is not None, '%s %s %s is accepted' % (how, files, o))
        c.eq(sorted(os.listdir(d)), ['one.capnp'], 'files created')
        shutil.rmtree(d)
    ctx.explore('refused', refused, shard_depth=1)
