"""C22: the command line decodes every message and compiles like dynamic loading."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import wire, refschema
from mc.explore import Skip
from mc.wire import Plan, St

MODES = ('cpy', 'pypy', 'pyx')
SHARDS = {'quick': {'cpy': 2, 'pypy': 3, 'pyx': 3}, 'thorough': {'cpy': 2, 'pypy': 3, 'pyx': 3}}
BOUNDS = {
    'quick': 'decode: every sequence of at most 3 messages out of 6 shapes (empty, small, multi-segment, larger than the I/O buffers, every kind of '
             'field, control characters), every truncation point of every sequence of at most 2 of the 4 short ones (and the boundaries +-1 of the others), trailing garbage, '
             'a stream of 10001 messages; as a process: every combination of options x (complete, truncated); compile: every combination of '
             '--no-convert-case, --text-type, --no-version-check, --no-reflection, --no-pyx x 2 schemas (pyx mode: each option alone and all together)',
    'thorough': 'as quick, with every combination of options in pyx mode too'}
ASSUMPTIONS = ['the output of decode is compared with the official `capnp convert binary:text --short` (see C12 for the textual form)',
               'two modules are considered to behave the same if mc/cliobs.py cannot tell them apart: names, constructors, fields, types, textual form, constants, enums, reflection data']

FLAGS = ['--no-convert-case', '--text-type=unicode', '--no-version-check', '--no-reflection', '--no-pyx']


def run(ctx):
    tmp = tempfile.mkdtemp(prefix='c22-')
    old = os.getcwd()
    src = os.path.join(os.path.dirname(ctx.schema_file('zoo')), 'cli')
    tools = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = None
    try:
        go(ctx, tmp, src, tools)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def messages(S):
    """[(class, wire tree, plan)]: the shapes of the streams"""
    W = S.to_wire
    tree = W('Msg', {'num': 2, 'fooBar': b'text', 'textList': [b'a', b'bb'], 'thePoint': {'xCoord': -1, 'label': b'p'},
                     'points': [{'xCoord': 1}, {'label': b'l'}]})
    units = wire.units_of(tree)
    return [
        ('Msg', St(), None),
        ('Msg', W('Msg', {'num': 1}), None),
        ('Msg', W('Msg', {'num': -3, 'fooBar': b'new\nline "quoted" \\ \r caf\xc3\xa9', 'intVal': 6}), None),
        ('Msg', tree, Plan(seg={u.idx: u.idx % 3 for u in units}, nseg=3)),
        ('Msg', W('Msg', {'fooBar': b'x' * 70000, 'rawData': b'y' * 5}), None),
        ('Msg', W('Msg', {'num': 4, 'kind': 2, 'theColor': 0, 'flt': 1.5, 'aGroup': {'inGroup': 9, 'txt': b'g'}, 'sub': {'num': 5, 'textVal': b'tv'},
                          'maybeNum': {'isNull': True}, 'always': b'u', 'innerOne': {'class': True, 'someName': b's'}}), None),
    ]


def go(ctx, tmp, src, tools):
    th = ctx.thorough
    py = [sys.executable]
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([ctx.ws, tmp]), PYTHONIOENCODING='utf-8', PYTHONHASHSEED='0')
    for k in list(env):
        if k.startswith('CAPNPY_') :
            del env[k]
    for f in os.listdir(src):
        if f.endswith(('.capnp', '.py')):
            shutil.copy(os.path.join(src, f), tmp)
    S = refschema.compile_schema(os.path.join(tmp, 'mccli.capnp'), [tmp, ctx.ws])
    shapes = messages(S)
    bufs = [wire.message(t, p) for _, t, p in shapes]
    rc, out, err = refschema.capnp_convert('binary:text', bufs, os.path.join(tmp, 'mccli.capnp'), 'Msg', [tmp, ctx.ws], short=True)
    assert rc == 0, err
    lines = [normal(x) for x in out.decode('utf-8').split('\n')[:-1]]
    assert len(lines) == len(bufs)
    server = []
    stream = os.path.join(tmp, 'stream.bin')

    def decode(buf, opts=('--no-pyx',)):
        with open(stream, 'wb') as f:
            f.write(buf)
        if not server:
            server.append(subprocess.Popen(py + [os.path.join(tools, 'clirun.py')], cwd=tmp, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE))
        server[0].stdin.write(json.dumps(['decode', stream, 'mccli', 'Msg'] + list(opts)).encode() + b'\n')
        server[0].stdin.flush()
        return json.loads(server[0].stdout.readline().decode())

    def check(c, buf, want, complete, opts=('--no-pyx',)):
        status, out, err = decode(buf, opts)
        got = [normal(x) for x in out.split('\n')]
        c.check(got[-1] == '', 'the last line is not terminated')
        c.eq(got[:-1], want, 'lines printed')
        if complete:
            c.eq(status, 0, 'exit status at the end of a complete stream')
        else:
            c.check(status != 0, 'the stream is truncated, but decode ends normally')
        c.state(buf[:200000])

    def sequences(c):
        n = c.choose(4)
        seq = [c.choose(len(bufs)) for _ in range(n)]
        check(c, b''.join(bufs[i] for i in seq), [lines[i] for i in seq], True)
    ctx.explore('decode/sequences', sequences, shard_depth=2)

    def truncated(c):
        n = 1 + c.choose(2)
        seq = [c.choose(len(bufs)) for _ in range(n)]
        short = [0, 1, 2, 3]
        whole = b''.join(bufs[i] for i in seq)
        ends = [sum(len(bufs[i]) for i in seq[:k]) for k in range(n + 1)]
        if all(i in short for i in seq) and (n == 1 or th or (seq[0] < 2 or seq[1] < 2)):
            cut = c.choose(len(whole))
        else:
            cuts = sorted({e + d for e in ends for d in (-9, -8, -1, 0, 1, 4, 8, 9, 16) if 0 <= e + d < len(whole)})
            cut = c.pick(cuts)
        done = max(k for k in range(n + 1) if ends[k] <= cut)
        check(c, whole[:cut], [lines[i] for i in seq[:done]], cut in ends)
    ctx.explore('decode/truncated', truncated, shard_depth=3)

    def garbage(c):
        i = c.choose(len(bufs))
        g = c.pick([b'\0', b'\0\0\0', b'\xff' * 4, b'\xff' * 8, b'\0\0\0\0\xff\xff\xff\x0f', b'\0' * 7])
        check(c, bufs[i] + g, [lines[i]], False)
    ctx.explore('decode/garbage', garbage, shard_depth=1)

    def many(c):
        n = c.pick([9999, 10000, 10001, 20000])
        check(c, bufs[1] * n, [lines[1]] * n, True)
    ctx.explore('decode/many', many, shard_depth=1)
    if server:
        server[0].stdin.close()
        server[0].wait()

    # ---------------------------------------------------------------- processes
    def run_cli(args, cwd):
        p = subprocess.run(py + ['-m', 'capnpy'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode('utf-8'), p.stderr.decode('utf-8', 'replace')

    def combos(c):
        flags = FLAGS
        if ctx.mode == 'cpy':
            return [f for f in FLAGS[:4] if c.flag(f)] + ['--no-pyx']
        if ctx.mode == 'pypy' or th:
            on = [f for f in (FLAGS[:4] if ctx.mode == 'pyx' else FLAGS) if c.flag(f)]
            if not th and ctx.mode == 'pypy' and '--no-pyx' in on and len(on) not in (1, 5):
                raise Skip()
            return on
        return c.pick([[], FLAGS[:1], FLAGS[1:2], FLAGS[2:3], FLAGS[3:4], FLAGS[:2], FLAGS[:4]], 'options')

    def process(c):
        opts = combos(c)
        d = tempfile.mkdtemp(dir=tmp)
        fn = os.path.join(d, 's.bin')
        for cut in (0, 1):
            with open(fn, 'wb') as f:
                f.write(bufs[1] + bufs[3] + bufs[2][:len(bufs[2]) - cut])
            rc, out, err = run_cli(['decode', fn, 'mccli', 'Msg'] + opts, d)
            want = [lines[1], lines[3]] + ([] if cut else [lines[2]])
            c.eq([normal(x) for x in out.split('\n')], want + [''], 'decode %s: output (%s)' % (opts, err[-300:]))
            c.check((rc == 0) == (cut == 0), 'decode %s: exit status %r, %d bytes missing' % (opts, rc, cut))
            if ctx.mode == 'pyx' and '--no-pyx' not in opts and not th:
                break
        shutil.rmtree(d)
        c.state('process', tuple(opts))
    ctx.explore('decode/process', process, shard_depth=4 if ctx.mode != 'pyx' else 1)

    # ---------------------------------------------------------------- compile
    msgfile = os.path.join(tmp, 'messages.json')
    S2 = refschema.compile_schema(os.path.join(tmp, 'mcclif.capnp'), [tmp, ctx.ws])
    corpus = {'mccli': [['Msg', b.hex()] for b in bufs if len(b) < 1000] + [['Extended', wire.message(S.to_wire('Extended', {'value': 4})).hex()]],
              'mcclif': [['Msg', wire.message(S2.to_wire('Msg', v)).hex()] for v in ({}, {'num': 3, 'fooBar': b'f\xc3\xa9', 'textVal': b't', 'rawText': b'r'})] +
                        [['Plain', wire.message(S2.to_wire('Plain', {'camelCase': 4, 'text': b't'})).hex()]]}

    def observe(how, modname, opts, d):
        options = None
        if how == 'load':
            options = {'convert_case': '--no-convert-case' not in opts, 'version_check': '--no-version-check' not in opts,
                       'include_reflection_data': '--no-reflection' not in opts,
                       'text_type': 'unicode' if '--text-type=unicode' in opts else 'bytes'}
        mf = os.path.join(d, 'messages.json')
        with open(mf, 'w') as f:
            json.dump(corpus[modname], f)
        e = dict(env, PYTHONPATH=os.pathsep.join([ctx.ws, d]))
        p = subprocess.run(py + [os.path.join(tools, 'cliobs.py'), how, modname, 'False' if '--no-pyx' in opts else 'auto', json.dumps(options), mf],
                           cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            return {'error': p.stderr.decode()[-1500:]}
        return json.loads(p.stdout.decode())

    def fresh():
        d = tempfile.mkdtemp(dir=tmp)
        for f in os.listdir(src):
            if f.endswith(('.capnp', '.py')):
                shutil.copy(os.path.join(src, f), d)
        return d

    def compiled(c):
        opts = combos(c)
        modname = c.pick(['mccli', 'mcclif'])
        if ctx.mode == 'pyx' and modname == 'mcclif' and not th and len(opts) not in (0, 4):
            raise Skip()
        a, b = fresh(), fresh()
        e = dict(env, PYTHONPATH=os.pathsep.join([ctx.ws, a]))
        files = ['mccli_other.capnp', 'mccli.capnp'] if modname == 'mccli' else ['mcclif.capnp']
        for f in files:
            # imported schemas are compiled on their own; their options are the default ones when they are loaded dynamically
            o = opts if f != 'mccli_other.capnp' else [x for x in opts if x == '--no-pyx'] + ['--no-version-check']
            p = subprocess.run(py + ['-m', 'capnpy', 'compile', c_path(f, len(opts))] + o, cwd=a, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            c.eq(p.returncode, 0, 'compile %s %s: %s' % (f, o, p.stderr.decode()[-800:]))
            made = sorted(x for x in os.listdir(a) if x.startswith(f[:-6] + '.') and not x.endswith('.capnp'))
            so = ctx.mode == 'pyx' and '--no-pyx' not in opts
            c.check(len(made) == 1 and made[0].endswith('.so' if so else '.py'), 'files created by compile %s: %s' % (o, made))
        x, y = observe('import', modname, opts, a), observe('load', modname, opts, b)
        for k in sorted(set(x) | set(y)):
            c.eq(x.get(k), y.get(k), '%s %s: %s of the compiled module' % (modname, opts, k))
        c.check('error' not in x, 'error: %s' % x.get('error'))
        facts(c, x, modname, opts)
        shutil.rmtree(a)
        shutil.rmtree(b)
        c.state('compiled', modname, tuple(opts))
    ctx.explore('compile', compiled, shard_depth=5 if ctx.mode != 'pyx' else 2)

    # ---------------------------------------------------------------- arguments which must be refused
    def refused(c):
        args = c.pick([['compile', 'mccli.capnp', '--text-type=foo'], ['compile', 'nothere.capnp', '--no-pyx'], ['decode', 'nothere', 'mccli', 'Msg', '--no-pyx'],
                       ['decode', stream, 'mccli', 'NoSuch', '--no-pyx'], ['decode', stream, 'nosuch', 'Msg', '--no-pyx'], ['compile'], [], ['frob', 'x'],
                       ['compile', 'mccli.capnp', '--nosuchoption'], ['decode', stream, 'mccli', 'Msg', '--text-type=str']])
        d = fresh()
        open(stream, 'wb').write(bufs[1])
        before = sorted(os.listdir(d))
        rc, out, err = run_cli(args, d)
        c.check(rc != 0, 'capnpy %s exits with 0' % ' '.join(args))
        c.check(lines[1] not in out, 'capnpy %s decodes' % args)
        c.eq(sorted(x for x in os.listdir(d) if x != '__pycache__'), before, 'files created')
        shutil.rmtree(d)
    if ctx.mode != 'pyx':
        ctx.explore('refused', refused, shard_depth=1)


def c_path(f, k):
    """different ways of naming the file in the current directory"""
    return f if k % 2 == 0 else os.path.join('.', f)


def normal(line):
    """floats: 1.5 prints the same; 0 is 0.0 for Python"""
    return line.replace('flt = 0.0,', 'flt = 0,')


def facts(c, x, modname, opts):
    """what the options mean"""
    camel = '--no-convert-case' in opts
    text = 'str' if '--text-type=unicode' in opts else 'bytes'
    c.eq(x['reflection'], '--no-reflection' not in opts, 'reflection data is present')
    c.eq(x['version check'], 0 if '--no-version-check' in opts else 1, 'version check')
    cls = x['class Msg']
    c.check(('fooBar' if camel else 'foo_bar') in cls and ('foo_bar' if camel else 'fooBar') not in cls, 'field names: %s' % sorted(cls))
    m = x['message 2' if modname == 'mccli' else 'message 1'][2]
    got = m['fooBar' if camel else 'foo_bar']
    if modname == 'mccli':
        c.eq(got.split(':')[0], text, 'type of a text field')
        c.eq(x['message 4'][2]['always'], 'str:u', 'text field with an option')
        c.eq(x['extended'], 'int:42', 'extension module')
        c.eq(x['const theAnswer' if 'const theAnswer' in x else 'const the_answer'], 'int:42', 'constant')
    else:
        c.eq(got.split(':')[0], 'str', 'type of a text field (option of the file)')
        c.eq(m['rawText' if camel else 'raw_text'], 'bytes:72', 'text field with an option')
        c.check('camelCase' in x['class Plain'], 'struct with an option: %s' % sorted(x['class Plain']))
