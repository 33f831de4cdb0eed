"""C05: stream framing -- exactly one whole message per load, truncation never passes."""
import io
import os
import socket
import struct

from mc import wire
from mc.wire import St, Plan
from mc.explore import Skip
from mc.view import View

MODES = ('cpy', 'pypy')
SHARDS = {'quick': {'cpy': 4, 'pypy': 3}, 'thorough': {'cpy': 4, 'pypy': 4}}
BOUNDS = {
    'quick': 'streams of 0..3 messages out of 9 framings (1..5 segments, empty segments, zero-sized objects, null root) x 9 kinds of source '
             '(in-memory file, real file, pipe, socket, buffered socket and stream with every chunk size 1..9, capnpy string buffer) x {load, '
             'load_all}; every truncation point of every 1- and 2-message stream; every number of trailing bytes 1..17 for loads; header words '
             'over 11 boundary values (incl. 2^28..2^32-1) x 0..3 words of body, for 1..4 declared segments',
    'thorough': 'as quick with 4 messages and 14 boundary header values'}
ASSUMPTIONS = ['errors are accepted whatever their type, except EOFError for a truncated message (it would end load_all silently)',
               'a null root pointer loads as None']


def run(ctx):
    import capnpy
    from capnpy.buffered import BufferedStream, BufferedSocket, StringBuffer
    S = ctx.schema('zoo')
    mod = ctx.load('zoo')
    view = View(S, mod)
    th = ctx.thorough
    n = S.byname['Two']

    def tree(i):
        return S.to_wire('Two', {'v': 1000 + i, 't': b't%d' % i, 'q': {'s': b'longer text %d' % i, 'd': b'\xff'}})

    def messages(i):
        """framings of a message identified by i: (bytes, tree)"""
        t = tree(i)
        small = St(struct.pack('<Q', 1000 + i), [])
        e = []
        e.append((wire.message(small), small))
        e.append((wire.message(t), t))
        e.append((wire.message(t, Plan(seg={1: 1})), t))
        e.append((wire.message(t, Plan(seg={1: 1, 2: 2, 3: 1})), t))
        e.append((wire.message(t, Plan(seg={1: 3, 2: 3}, nseg=4)), t))          # segments 1, 2 are empty
        e.append((wire.message(t, Plan(seg={0: 1, 1: 2, 2: 3, 3: 4}, far={3: ('double', 2)})), t))
        e.append((wire.message(St()), St()))
        e.append((wire.message(t, Plan(extra={0: 2})), t))
        e.append((wire.frame([b'\0' * 8]), None))
        return e
    NM = len(messages(0))

    def is_msg(c, obj, t, what):
        if t is None:
            c.eq(obj, None, what)
        else:
            c.check(isinstance(obj, mod.Two), '%s: %r is not a Two' % (what, obj))
            view.check_struct(c, n, obj, t, what)

    class Chunks(BufferedStream):
        def __init__(self, data, k):
            super(Chunks, self).__init__()
            self.chunks = [data[i:i + k] for i in range(0, len(data), k)][::-1]

        def _readchunk(self):
            return self.chunks.pop() if self.chunks else b''

    class FakeSock(object):
        def __init__(self, data, k):
            self.data, self.k = data, k

        def recv(self, size):
            k = min(size, self.k)
            out, self.data = self.data[:k], self.data[k:]
            return out

        def close(self):
            pass

    class Minimal(object):
        """duck-typed file"""
        def __init__(self, data):
            self.f = io.BytesIO(data)

        def read(self, size=-1):
            return self.f.read(size)

        def readline(self):
            return self.f.readline()

    def sources(data):
        """name -> opener returning (file, tell or None, closer)"""
        def mem():
            f = io.BytesIO(data)
            return f, f.tell, f.close

        def sbuf():
            f = StringBuffer(data)
            return f, f.tell, lambda: None

        def disk():
            with open('stream.bin', 'wb') as g:
                g.write(data)
            f = open('stream.bin', 'rb')
            return f, f.tell, f.close

        def pipe():
            r, w = os.pipe()
            os.write(w, data)
            os.close(w)
            f = os.fdopen(r, 'rb')
            return f, None, f.close

        def sock():
            a, b = socket.socketpair()
            a.sendall(data)
            a.close()
            f = BufferedSocket(b, 16)
            return f, None, f.close

        def minimal():
            f = Minimal(data)
            return f, f.f.tell, lambda: None
        out = [('BytesIO', mem), ('StringBuffer', sbuf), ('file', disk), ('pipe', pipe), ('socket', sock), ('duck', minimal)]
        for k in range(1, 10):
            out.append(('chunks%d' % k, lambda k=k: (Chunks(data, k), None, lambda: None)))
            out.append(('fakesock%d' % k, lambda k=k: (BufferedSocket(FakeSock(data, k), 8192), None, lambda: None)))
        return out
    SRC = [name for name, _ in sources(b'')]

    def drain(c, data, ends, trees, name, how):
        """read all of `data`; ends/trees describe the whole messages, data may go on with a truncated one"""
        f, tell, close = dict(sources(data))[name]()
        clean = (ends[-1] if ends else 0) == len(data)
        try:
            got = 0
            if how == 'load_all':
                it = capnpy.load_all(f, mod.Two)
            elif how == 'cls.load_all':
                it = mod.Two.load_all(f)
            while True:
                try:
                    if how == 'load':
                        obj = capnpy.load(f, mod.Two)
                    elif how == 'cls.load':
                        obj = mod.Two.load(f)
                    else:
                        obj = next(it)
                except EOFError:
                    c.check(clean and got == len(ends) and 'all' not in how, 'EOFError after %d of %d messages, clean=%s' % (got, len(ends), clean))
                    break
                except StopIteration:
                    c.check(clean and got == len(ends), '%s ended normally after %d of %d messages, stream %s' %
                            (how, got, len(ends), 'complete' if clean else 'truncated'))
                    break
                except Exception as e:
                    c.check(not clean and got == len(ends), 'unexpected error after %d of %d messages: %r' % (got, len(ends), e))
                    break
                c.check(got < len(ends), 'a message was loaded from a truncated stream: %r' % (obj,))
                is_msg(c, obj, trees[got], 'message %d' % got)
                if tell is not None:
                    c.eq(tell(), ends[got], 'position after message %d' % got)
                got += 1
            if clean:
                # the end of the stream is stable
                for _ in range(2):
                    try:
                        obj = capnpy.load(f, mod.Two)
                    except EOFError:
                        continue
                    c.fail('load() after the end of the stream gave %r' % (obj,))
        finally:
            close()

    def stream(c, ids):
        data, ends, trees = b'', [], []
        for i, k in enumerate(ids):
            b, t = messages(i)[k]
            data += b
            ends.append(len(data))
            trees.append(t)
        return data, ends, trees

    def whole(c):
        ids = [c.choose(NM) for _ in range(c.choose(5 if th else 4))]
        data, ends, trees = stream(c, ids)
        name = c.pick(SRC if len(ids) < 3 else ['BytesIO', 'chunks3', 'fakesock7', 'StringBuffer'])
        how = c.pick(['load', 'load_all'] if len(ids) > 2 else ['load', 'load_all', 'cls.load', 'cls.load_all'])
        c.state('whole', ids)
        drain(c, data, ends, trees, name, how)
    ctx.explore('whole', whole, shard_depth=3)

    def truncated(c):
        ids = [c.choose(NM) for _ in range(c.choose(2))] + [c.choose(NM)]
        data, ends, trees = stream(c, ids)
        start = ends[-2] if len(ends) > 1 else 0
        cut = start + 1 + c.choose(len(data) - start - 1)
        name = c.pick(SRC if len(ids) == 1 else ['BytesIO', 'chunks1', 'chunks8', 'fakesock5', 'StringBuffer'])
        how = c.pick(['load', 'load_all'])
        c.state('trunc', ids, cut)
        drain(c, data[:cut], ends[:-1], trees[:-1], name, how)
    ctx.explore('truncated', truncated, shard_depth=3)

    def strings(c):
        k = c.choose(NM)
        b, t = messages(1)[k]
        mode = c.pick(['exact', 'trunc', 'extra', 'extra-message'])
        fn = c.pick([lambda s: capnpy.loads(s, mod.Two), mod.Two.loads])
        if mode == 'exact':
            is_msg(c, fn(b), t, 'loads')
            return
        if mode == 'trunc':
            s = b[:c.choose(len(b))]
        elif mode == 'extra':
            s = b + bytes(bytearray([c.pick([0, 1, 0xff])])) * (1 + c.choose(17))
        else:
            s = b + messages(2)[c.choose(NM)][0]
        c.state('strings', s)
        try:
            obj = fn(s)
        except Exception:
            c.step()
            return
        c.fail('loads() of %s accepted: %r' % (mode, obj))
    ctx.explore('strings', strings, shard_depth=2)

    # ---- headers
    vals = [0, 1, 2, 3, 2 ** 28, 2 ** 28 + 1, 2 ** 29, 2 ** 29 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
    if th:
        vals += [2 ** 27, 2 ** 30, 2 ** 30 + 1, 2 ** 31 + 1]

    def headers(c):
        cnt = c.pick([0, 1, 2, 3, 2 ** 29 - 1, 2 ** 30, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1])
        words = [c.pick(vals if i < 2 or th else [0, 1, 2 ** 29]) for i in range(c.choose(5))]
        h = struct.pack('<%dI' % (1 + len(words)), cnt, *words)
        body = c.choose(4)
        root = wire.pack_ptr(wire.p_struct(0, 1, 0)) if body > 1 else wire.pack_ptr(wire.p_struct(-1, 0, 0))
        data = h + (b'\0' * 4 if c.flag() else b'') + (root + struct.pack('<QQ', 1234, 0xffffffffffffffff))[:body * 8]
        c.state('headers', data)
        try:
            segs, end = wire.unframe(data)
        except wire.WireError:
            end = None
        else:
            if segs[0]:
                try:
                    t = wire.decode(segs)
                except wire.WireError:
                    raise Skip('misaligned: the body is not a message (C06)')
                if not isinstance(t, (St, type(None))):
                    raise Skip()
            else:
                raise Skip('no root pointer (C06)')
        for src in ('BytesIO', 'StringBuffer', 'chunks8'):
            f, tell, close = dict(sources(data))[src]()
            try:
                obj = capnpy.load(f, mod.Two)
                if obj is not None:
                    obj.v, obj.t, obj.q
            except Exception as e:
                if end is not None:
                    c.fail('%s: valid header refused: %r' % (src, e))
                c.check(not isinstance(e, EOFError), '%s: truncated message reported as end of stream' % src)
                continue
            c.check(end is not None, '%s: malformed header accepted: %r' % (src, obj))
            is_msg(c, obj, t, src)
            if tell:
                c.eq(tell(), end, src + ' position')
    ctx.explore('headers', headers, shard_depth=2)

    # ---- dumps/dump followed by load: a stream written by capnpy itself
    def written(c):
        f = io.BytesIO()
        trees = []
        for i in range(1 + c.choose(3)):
            b, t = messages(i)[c.choose(NM - 1)]
            obj = capnpy.loads(b, mod.Two)
            fast = c.flag()
            if c.flag():
                obj.dump(f, fast)
            else:
                f.write(capnpy.dumps(obj, fast))
            trees.append((t, f.tell()))
        f.seek(0)
        for t, end in trees:
            is_msg(c, capnpy.load(f, mod.Two), t, 'written')
            c.eq(f.tell(), end, 'position')
        c.eq(list(capnpy.load_all(f, mod.Two)), [], 'rest of the stream')
    ctx.explore('written', written, shard_depth=3)
    if ctx.mode == 'cpy':
        ctx.count('streams cross-checked with capnp', cross_check(ctx, S, messages))


def cross_check(ctx, S, messages):
    """the framing model against the official tool: it must split the concatenation of all messages"""
    from mc.refschema import capnp_convert
    if not ctx.first():
        return 0
    ms = [b for b, t in messages(1) if t is not None]
    rc, out, err = capnp_convert('binary:flat', [b''.join(ms)], ctx.schema_file('zoo'), 'Two', [ctx.ws])
    rc, out, err = capnp_convert('binary:text', [b''.join(ms)], ctx.schema_file('zoo'), 'Two', [ctx.ws], short=True)
    lines = out.decode().splitlines()
    if rc or len(lines) != len(ms):
        ctx.report('framing-model', 'the official tool disagrees with the model of the framing: rc=%s, %d lines for %d messages: %s' % (rc, len(lines), len(ms), err[-300:]))
    return len(ms)
