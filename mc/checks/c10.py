"""C10: buffered readers equal an in-memory file, however the input is chunked."""
import io
import socket

MODES = ('cpy', 'pypy')
SHARDS = {'quick': {'cpy': 2, 'pypy': 2}, 'thorough': {'cpy': 4, 'pypy': 4}}
BOUNDS = {
    'quick': 'streams of 0-5 bytes with every placement of newlines x every way to split them into chunks x every sequence of 4 operations '
             'out of {read(0), read(1), read(2), read(3), read(rest), read(rest+1), read(huge), read(-1), read(), readline} on a subclass of BufferedStream; '
             'the same operations on BufferedSocket over a recording socket with every recv schedule, StringBuffer (with tell after each operation) and FileLikeAdapter; '
             'streams around the default buffer size of 8192 with up to 3 chunks; every sequence of 4 writes/flushes; real socket pairs',
    'thorough': 'streams of 0-6 bytes and sequences of 5 operations'}
ASSUMPTIONS = ['io.BytesIO is the specification of reads, unlimited reads and line reads']

HUGE = 2 ** 62


def compositions(n):
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        out += [(k,) + r for r in compositions(n - k)]
    return out


def run(ctx):
    from capnpy.buffered import BufferedStream, BufferedSocket, StringBuffer
    from capnpy.filelike import as_filelike, FileLike, FileLikeAdapter
    th = ctx.thorough

    class Chunked(BufferedStream):
        def __init__(self, chunks):
            BufferedStream.__init__(self)
            self.chunks = list(chunks)
            self.eof = 0

        def _readchunk(self):
            if not self.chunks:
                self.eof += 1
                return b''
            return self.chunks.pop(0)

    class FakeSocket(object):
        """gives at most what is asked for, in pieces not longer than those of the schedule"""
        def __init__(self, data, pieces):
            self.data, self.pieces, self.sent, self.asked = data, list(pieces), [], []

        def recv(self, n):
            self.asked.append(n)
            if not self.data:
                return b''
            k = self.pieces.pop(0) if self.pieces else len(self.data)
            k = min(k, n)
            out, self.data = self.data[:k], self.data[k:]
            return out

        def sendall(self, b):
            self.sent.append(bytes(b))

        def close(self):
            self.closed = True

    def streams(nmax):
        out = []
        for n in range(nmax + 1):
            for bits in range(2 ** n):
                out.append(bytes(bytearray(10 if bits >> i & 1 else 97 + i for i in range(n))))
        return out

    def ops(c, n, f, ref, depth, what, tell=None):
        trail = []
        for _ in range(depth):
            rest = n - ref.tell()
            alts = [('readline', None), ('read', -1), ('read', None)] + [('read', k) for k in sorted(set([0, 1, 2, 3, rest, rest + 1, HUGE]))]
            op, a = c.pick(alts)
            if op == 'readline':
                got, want = f.readline(), ref.readline()
            elif a is None:
                got, want = f.read(), ref.read()
            else:
                got, want = f.read(a), ref.read(a)
            trail.append('%s(%s)' % (op, '' if a is None else a))
            c.step()
            if got != want or type(got) is not bytes:
                c.fail('%s: %s returned %r instead of %r' % (what, ' '.join(trail), got, want))
            if tell is not None:
                c.eq(tell(), ref.tell(), '%s: tell() after %s' % (what, ' '.join(trail)))
            c.state(what, ref.tell())
            if rest == 0:
                break
        got, want = f.read(), ref.read()
        c.eq(got, want, '%s: the rest of the stream after %s' % (what, ' '.join(trail)))

    S = streams(6 if th else 5)
    depth = 4 if th else 3

    def chunked(c):
        data = c.pick(S)
        chunks = c.pick(compositions(len(data)))
        parts, i = [], 0
        for k in chunks:
            parts.append(data[i:i + k])
            i += k
        ops(c, len(data), Chunked(parts), io.BytesIO(data), depth, 'stream %r' % (parts,))
    ctx.explore('chunked', chunked, shard_depth=2)

    S4 = streams(4)

    def chunked_deep(c):
        data = c.pick(S4)
        chunks = c.pick(compositions(len(data)))
        parts, i = [], 0
        for k in chunks:
            parts.append(data[i:i + k])
            i += k
        ops(c, len(data), Chunked(parts), io.BytesIO(data), depth + 1, 'stream %r' % (parts,))
    ctx.explore('chunked/deep', chunked_deep, shard_depth=2)

    def sock(c):
        data = c.pick(S if th else S4)
        chunks = c.pick(compositions(len(data)))
        bufsize = c.pick([1, 2, 3, 8192])
        s = FakeSocket(data, chunks)
        ops(c, len(data), BufferedSocket(s, bufsize), io.BytesIO(data), 3 if th else 2, 'socket %r bufsize=%d' % ((data, chunks), bufsize))
        c.check(set(s.asked) <= {bufsize}, 'recv called with %r instead of the buffer size %d' % (s.asked, bufsize))
    ctx.explore('socket', sock, shard_depth=2)

    def memory(c):
        data = c.pick(S)
        f = StringBuffer(data)
        c.eq(f.tell(), 0, 'tell() at the beginning')
        ops(c, len(data), f, io.BytesIO(data), 4 if th else 3, 'StringBuffer(%r)' % data, f.tell)
    ctx.explore('memory', memory, shard_depth=1)

    def adapter(c):
        data = c.pick(S4)
        kind = c.pick(['FileLikeAdapter', 'as_filelike', 'as_filelike twice'])
        src = io.BytesIO(data)
        f = FileLikeAdapter(src) if kind == 'FileLikeAdapter' else as_filelike(src)
        if kind == 'as_filelike twice':
            g = as_filelike(f)
            c.check(g is f, 'as_filelike of a FileLike is another object')
        ops(c, len(data), f, io.BytesIO(data), 3 if th else 2, '%s(%r)' % (kind, data))
    ctx.explore('adapter', adapter, shard_depth=1)

    # ---- large streams: sizes around the buffer size, newlines at every boundary
    def large(c):
        b = c.pick([16, 8192])
        sizes = [b - 1, b, 2 * b, 3]
        n = c.choose(3 if b == 16 else 2) + 1
        parts = []
        for i in range(n):
            k = c.pick(sizes)
            p = bytearray((i * 31 + j) % 9 + 97 for j in range(k))
            nl = c.pick([None, 0, k - 1])
            if nl is not None:
                p[nl] = 10
            parts.append(bytes(p))
        data = b''.join(parts)
        plan = c.pick([('readline',) * 4, (b, b, b), (b + 1, 'readline', 1, 'readline'), (1, 'readline', b, -1), (len(data),), (-1,), (2 * b, 'readline')])
        for f, ref in [(Chunked(parts), io.BytesIO(data)), (BufferedSocket(FakeSocket(data, [len(x) for x in parts]), b), io.BytesIO(data))]:
            for op in plan:
                got, want = (f.readline(), ref.readline()) if op == 'readline' else (f.read(op), ref.read(op))
                c.step()
                if got != want:
                    c.fail('large stream: %s returned %d bytes instead of %d' % (op, len(got), len(want)))
            c.check(f.read() == ref.read(), 'large stream: rest differs')
    ctx.explore('large', large, shard_depth=2)

    # ---- the end of the stream is reported each time, without losing what was buffered before
    def ends(c):
        data = c.pick(S4)
        f = Chunked([data] if data else [])
        first = c.pick([0, 1, 2, 5])
        got = f.read(first)
        c.eq(got, data[:first], 'read(%d)' % first)
        c.eq(f.read(100), data[first:], 'read(100) after it')
        for op in range(3):
            c.eq(f.read(1), b'', 'read(1) at the end')
            c.eq(f.readline(), b'', 'readline() at the end')
            c.eq(f.read(), b'', 'read() at the end')
        c.check(f.eof > 0, 'the source was never asked for more data')
    ctx.explore('ends', ends)

    # ---- writing
    def writes(c):
        s = FakeSocket(b'', ())
        f = BufferedSocket(s)
        expect, pending = b'', b''
        for _ in range(4):
            op = c.pick([b'', b'a', b'bc\n', 'flush', 'stop'])
            if op == 'stop':
                break
            if op == 'flush':
                f.flush()
                expect += pending
                pending = b''
            else:
                f.write(op)
                pending += op
            c.eq(b''.join(s.sent), expect, 'bytes sent')
        f.flush()
        c.eq(b''.join(s.sent), expect + pending, 'bytes sent at the end')
        f.close()
        c.check(s.closed, 'the socket was not closed')
    ctx.explore('writes', writes)

    def real(c):
        data = c.pick([b'', b'abc', b'a\nb\n\nc', b'x' * 20000 + b'\n' + b'y' * 10000])
        how = c.pick(['read', 'lines', 'sized'])
        a, b = socket.socketpair()
        try:
            w = BufferedSocket(a)
            half = len(data) // 2
            w.write(data[:half])
            w.write(data[half:])
            w.flush()
            a.shutdown(socket.SHUT_WR)
            r = BufferedSocket(b)
            ref = io.BytesIO(data)
            if how == 'read':
                c.check(r.read() == data, 'read() over a socket')
            for _ in range(8):
                if how == 'lines':
                    c.check(r.readline() == ref.readline(), 'readline() over a socket')
                elif how == 'sized':
                    c.check(r.read(5000) == ref.read(5000), 'read(5000) over a socket')
        finally:
            a.close()
            b.close()
    ctx.explore('real', real)
    ctx.sample(repr(compositions(3)))
