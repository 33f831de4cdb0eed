"""
Bounded exhaustive exploration.

A scenario is a function `fn(c)` whose nondeterminism is expressed by
`c.choose(n)` / `c.pick(list)` / `c.dev(list)`.  The explorer executes it once for
every resolution of the choices (stateless DFS by prefix replay).  `dev`
choices count as deviations when they do not take alternative 0, and at most
`max_dev` of them are allowed per execution.

Nothing is sampled; `shard_depth` only splits the same tree among processes.
"""
import hashlib
import time

from mc.wire import Unrepresentable


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key


class Skip(Exception):
    """this resolution of the choices is outside of the model (not counted)"""


class Choices(object):
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.taken = []        # (index, number of alternatives, is_dev)
        self.labels = []
        self.devs = 0
        self.trail = []        # soft failures

    # -- nondeterminism
    def choose(self, n, label=None, dev=False):
        assert n >= 1
        i = len(self.taken)
        if dev and self.devs >= self.ex.max_dev:
            n = 1
        if i < len(self.prefix):
            x = self.prefix[i]
            if x >= n:
                raise Skip('stale prefix')
        else:
            x = 0
        self.taken.append((x, n))
        if dev and x:
            self.devs += 1
        if label is not None:
            self.labels.append('%s=%s' % (label, x))
        if n > 1 or x:
            self.ex.transitions += 1 if i >= self.ex.common else 0
        if len(self.taken) == self.ex.shard_depth and self.ex.nshards > 1 and not self.ex.replaying:
            h = 0
            for t, _ in self.taken:
                h = h * 31 + t
            if h % self.ex.nshards != self.ex.shard:
                raise Skip('other shard')
        return x

    def pick(self, seq, label=None):
        x = seq[self.choose(len(seq))]
        if label is not None:
            self.labels.append('%s=%r' % (label, x))
        return x

    def dev(self, seq, label=None):
        i = self.choose(len(seq), dev=True)
        if i and label is not None:
            self.labels.append('%s=%r' % (label, seq[i]))
        return seq[i]

    def flag(self, label=None):
        return bool(self.choose(2, label))

    def note(self, s):
        self.labels.append(str(s))

    # -- observations
    def state(self, *key):
        self.ex.state(*key)

    def step(self, n=1):
        """count a checked transition of the model"""
        self.ex.transitions += n

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def eq(self, got, want, what, key=None):
        self.ex.transitions += 1
        if not same(got, want):
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)), key)

    def check(self, cond, what, key=None):
        self.ex.transitions += 1
        if not cond:
            raise Violation(what, key)


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...(%d)' % len(r)


def same(a, b):
    """equality that distinguishes types which matter, and treats nan == nan, and 0.0 != -0.0"""
    if isinstance(b, float):
        if not isinstance(a, float):
            return False
        if a != a or b != b:
            return a != a and b != b
        return a == b and (a != 0 or str(a) == str(b))
    if isinstance(b, bool):
        return isinstance(a, bool) and a == b
    if isinstance(b, bytes) or isinstance(b, str) or b is None:
        return type(a) is type(b) and a == b
    if isinstance(b, int):
        return isinstance(a, int) and a == b
    if isinstance(b, (list, tuple)):
        return (type(a) is type(b) and len(a) == len(b) and
                all(same(x, y) for x, y in zip(a, b)))
    return a == b


class Explorer(object):
    def __init__(self, shard=0, nshards=1):
        self.shard, self.nshards = shard, nshards
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.scenarios = {}
        self.max_dev = 0
        self.shard_depth = 0
        self.common = 0
        self.replaying = False
        self.current = None
        self.on_trace = None       # callback(scenario, prefix) before each execution
        self.on_violation = None   # callback(scenario, choices, labels, exc)
        self.stop = False

    def state(self, *key):
        h = hashlib.blake2b(repr((self.current,) + key).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
        self.states.add(h)

    def one(self, name, fn, prefix):
        """execute fn under the given choices; -> (Choices, outcome)"""
        c = Choices(self, prefix)
        if self.on_trace is not None:
            self.on_trace(name, prefix)
        try:
            fn(c)
        except (Skip, Unrepresentable):
            return c, None
        except KeyboardInterrupt:
            raise
        except BaseException as e:     # anything else is an observation of the implementation
            return c, e
        return c, True

    def run(self, name, fn, max_dev=0, shard_depth=0, limit=None):
        if self.stop:
            return
        self.current = name
        self.max_dev = max_dev
        self.shard_depth = shard_depth
        if shard_depth == 0 and self.nshards > 1:
            # not split: owned by one shard
            owner = sum(bytearray(name.encode())) % self.nshards
            if owner != self.shard:
                return
        t0, n0 = time.time(), self.traces
        prefix = []
        self.common = 0
        while True:
            c, outcome = self.one(name, fn, prefix)
            if outcome is not None:
                self.traces += 1
                if outcome is not True:
                    self.on_violation(name, [t for t, _ in c.taken], c.labels, outcome)
                    if self.stop:
                        break
            # next
            taken = c.taken
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                break
            x, n = taken[-1]
            prefix = [t for t, _ in taken[:-1]] + [x + 1]
            self.common = len(prefix) - 1
            if limit is not None and self.traces - n0 >= limit:
                raise AssertionError('%s: limit of %d executions exceeded' % (name, limit))
        e = self.scenarios.setdefault(name, [0, 0.0])
        e[0] += self.traces - n0
        e[1] += time.time() - t0
