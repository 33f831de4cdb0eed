"""Runs the exploration of one check in one mode (executed by CPython or PyPy)."""
import array
import faulthandler
import signal
import importlib
import json
import mmap
import os
import resource
import sys
import traceback

from mc import refschema
from mc.explore import Explorer, Violation

SCHEMAS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'schemas')


class Ctx(object):
    def __init__(self, prop, mode, tier, shard, nshards, replay=None, only=None):
        self.prop, self.mode, self.tier = prop, mode, tier
        self.thorough = tier == 'thorough'
        self.shard, self.nshards = shard, nshards
        self.replay, self.only = replay, only
        self.ex = Explorer(shard, nshards)
        self.ex.on_trace = self._on_trace
        self.ex.on_violation = self._on_violation
        self.violations = []
        self.samples = []
        self.notes = {}
        self.tmpdir = os.getcwd()
        self.ws = os.environ['CAPNPY_MC_WS']
        self._mods = {}
        self._schemas = {}
        with open('progress', 'wb') as f:
            f.write(b'\0' * 65536)
        self._pf = open('progress', 'r+b')
        self._mm = mmap.mmap(self._pf.fileno(), 65536)
        self._seen_keys = {}

    # -- loading
    @property
    def pyx(self):
        return self.mode == 'pyx'

    def load(self, name, **kw):
        """load mc/schemas/<name>.capnp with the implementation under test"""
        import capnpy
        if name not in self._mods:
            self._mods[name] = capnpy.load_schema(filename=os.path.join(SCHEMAS, name + '.capnp'), pyx=self.pyx, **kw)
        return self._mods[name]

    def compiler(self):
        """a compiler which also finds the schemas of the framework by import name"""
        from capnpy.compiler.compiler import DynamicCompiler
        if not hasattr(self, '_comp'):
            self._comp = DynamicCompiler([self.ws, SCHEMAS])
        return self._comp

    def schema(self, name):
        """the reference model of the same schema"""
        if name not in self._schemas:
            self._schemas[name] = refschema.compile_schema(os.path.join(SCHEMAS, name + '.capnp'), [self.ws, SCHEMAS])
        return self._schemas[name]

    def schema_file(self, name):
        return os.path.join(SCHEMAS, name + '.capnp')

    def first(self):
        """true in exactly one worker: for work that need not be repeated per mode"""
        return self.shard == 0 and self.mode in ('cpy', 'asan')

    # -- exploration
    def explore(self, name, fn, max_dev=0, shard_depth=0, limit=None):
        if self.only and self.only != name:
            return
        if self.replay:
            if self.replay['scenario'] == name:
                self.ex.replaying = True
                self.ex.current, self.ex.max_dev, self.ex.shard_depth = name, max_dev, 0
                self.ex.max_dev = 10 ** 6 if self.replay.get('nodev') else max_dev
                c, outcome = self.ex.one(name, fn, self.replay['choices'])
                self.ex.traces += 1
                if outcome is not True and outcome is not None:
                    self._on_violation(name, [t for t, _ in c.taken], c.labels, outcome)
            return
        self.ex.run(name, fn, max_dev, shard_depth, limit)

    def _on_trace(self, name, prefix):
        b = json.dumps([name, prefix]).encode()[:60000] + b'\0'
        self._mm[:len(b)] = b

    def _on_violation(self, name, choices, labels, exc):
        if isinstance(exc, Violation):
            msg, key, tb = exc.msg, exc.key, ''
        else:
            msg = 'unexpected %s: %s' % (type(exc).__name__, exc)
            key, tb = None, ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
        if key is None:
            key = '%s:%s' % (name, ' '.join(labels) if labels else choices)
        n = self._seen_keys.get(key, 0)
        self._seen_keys[key] = n + 1
        if n == 0:
            self.violations.append(dict(scenario=name, choices=choices, labels=labels, msg=msg, key=key, log=tb))
        if len(self.violations) >= 40:
            self.ex.stop = True

    def report(self, name, msg, key=None, **kw):
        """a violation found outside of explore()"""
        self.violations.append(dict(scenario=name, choices=None, labels=[], msg=msg, key=key or name + ':' + msg[:80], log='', **kw))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def count(self, what, n=1):
        self.notes[what] = self.notes.get(what, 0) + n

    def dump(self, out, complete):
        ex = self.ex
        with open(out + '.tmp', 'w') as f:
            json.dump(dict(violations=self.violations, scenarios=ex.scenarios, transitions=ex.transitions,
                           traces=ex.traces, samples=self.samples, notes=self.notes, complete=complete), f)
        os.rename(out + '.tmp', out)
        a = array.array('Q')
        a.frombytes(b''.join(ex.states))
        with open(os.path.join(os.path.dirname(out), 'states'), 'wb') as f:
            f.write(a.tobytes())


def main():
    args = sys.argv[1:]
    replay = only = None
    if '--replay' in args:
        i = args.index('--replay')
        with open(args[i + 1]) as f:
            replay = json.load(f)
        del args[i:i + 2]
    if '--scenario' in args:
        i = args.index('--scenario')
        only = args[i + 1]
        del args[i:i + 2]
    prop, mode, tier, shard, nshards, out = args
    faulthandler.enable()
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    if mode not in ('asan',):
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx = Ctx(prop, mode, tier, int(shard), int(nshards), replay, only)
    check = importlib.import_module('mc.checks.%s' % prop.lower())
    try:
        import capnpy
        assert os.path.dirname(os.path.dirname(os.path.abspath(capnpy.__file__))) == ctx.ws, capnpy.__file__
        from capnpy.blob import PYX
        assert PYX == (mode in ('pyx', 'cpy', 'asan')), (mode, PYX)
        check.run(ctx)
    except BaseException as e:
        traceback.print_exc()
        ctx.violations.append(dict(scenario='(setup)', choices=None, labels=[], key='setup:%s' % type(e).__name__,
                                   msg='%s: %s' % (type(e).__name__, e), log=traceback.format_exc()[-3000:]))
    ctx.dump(out, True)


if __name__ == '__main__':
    main()
