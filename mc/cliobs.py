"""
Executed in a process of its own: prints everything observable of the module of a schema.
usage: cliobs.py how(import|load) modname pyx(auto|False) options(json) messages(json: [[class, hex]])
"""
import json
import os
import sys

how, modname, pyx, options, messages = sys.argv[1:6]
options, messages = json.loads(options), json.loads(open(messages).read())

import capnpy
from capnpy.enum import BaseEnum
from capnpy.struct_ import Struct
from capnpy.list import List


def load():
    if how == 'import':
        return __import__(modname)
    from capnpy.annotate import Options
    return capnpy.load_schema(modname=modname, pyx='auto' if pyx == 'auto' else False,
                              options=Options.from_dict(options) if options is not None else None)


def show(v):
    if isinstance(v, float):
        return 'float:%r' % v
    if isinstance(v, BaseEnum):
        return 'enum %s:%d:%s' % (type(v).__name__, int(v), v)
    if isinstance(v, Struct):
        return 'struct %s %s' % (type(v).__name__, v.shortrepr())
    if isinstance(v, (List, list)):
        return [show(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return 'bytes:' + v.hex()
    if isinstance(v, str):
        return 'str:' + v
    if isinstance(v, (bool, int)) or v is None:
        return '%s:%r' % (type(v).__name__, v)
    return type(v).__name__


BASE = set(dir(Struct))


def struct_obs(cls):
    out = {}
    for name in sorted(dir(cls)):
        if name in BASE or name.startswith('__'):
            continue
        v = getattr(cls, name)
        if isinstance(v, type) and issubclass(v, Struct):
            out[name] = 'class'
        elif isinstance(v, type) and issubclass(v, BaseEnum) and v.__capnpy_id__:
            out[name] = ['enum', list(v.__members__)]
        else:
            out[name] = 'attribute'
    return out


def attempt(f, *a, **k):
    try:
        return show(f(*a, **k))
    except Exception as e:
        return 'raises ' + type(e).__name__


def obs(mod):
    out = {}
    names = sorted(n for n in dir(mod) if not n.startswith('_'))
    out['names'] = names
    out['reflection'] = hasattr(mod, '_reflection_data') or attempt(capnpy.get_reflection_data, mod) != 'raises ValueError'
    classes = {}

    def walk(prefix, cls):
        classes[prefix] = cls
        for n, v in sorted(vars(cls).items()):
            if isinstance(v, type) and issubclass(v, Struct) and v is not cls and not n.startswith('_'):
                walk(prefix + '.' + n, v)
    for n in names:
        v = getattr(mod, n)
        if isinstance(v, type) and issubclass(v, Struct):
            walk(n, v)
        elif isinstance(v, type) and issubclass(v, BaseEnum) and v.__capnpy_id__:
            out['enum ' + n] = [list(v.__members__), [show(getattr(v, m)) for m in v.__members__], show(v(77)), repr(v(77))]
        elif not isinstance(v, type(sys)):
            out['const ' + n] = show(v)
    for n, cls in sorted(classes.items()):
        out['class ' + n] = struct_obs(cls)
        out['empty ' + n] = attempt(lambda: cls().dumps())
        args = []
        for a in sorted(struct_obs(cls)):
            for v in (5, b'b', u'u', [b'x'], True):
                args.append([a, attempt(lambda: cls(**{a: v}).dumps())])
        out['ctor ' + n] = args
    for i, (cname, buf) in enumerate(messages):
        cls = getattr(mod, cname, None)
        if cls is None:
            continue
        m = capnpy.loads(bytes.fromhex(buf), cls)
        fields = {}
        for a in sorted(struct_obs(cls)):
            v = attempt(getattr, m, a)
            if v in ('method', 'builtin_function_or_method', 'cython_function_or_method', 'instancemethod'):
                v = attempt(getattr(m, a)) if not a.startswith('new') else 'method'
            fields[a] = v
        out['message %d' % i] = [m.shortrepr(), repr(m), fields, show(m.compact().dumps()), attempt(lambda: hash(m) is None),
                                 attempt(lambda: m == m), attempt(lambda: m.which())]
    if out['reflection']:
        r = capnpy.get_reflection_data(mod)
        info = []
        for n, cls in sorted(classes.items()):
            node = r.get_node(cls)
            info.append([n, node.displayName.decode().rsplit('/')[-1],
                         [[f.name.decode(), r.field_name(f)] for f in node.get_struct_fields() or []],
                         ])
        for n in names:
            v = getattr(mod, n)
            if isinstance(v, type) and issubclass(v, BaseEnum) and v.__capnpy_id__:
                node = r.get_node(v)
                info.append([n, [[e.name.decode(), r.field_name(e)] for e in node.get_enum_enumerants()]])
        out['reflection data'] = info
    if hasattr(mod, 'Extended'):
        out['extended'] = attempt(lambda: mod.Extended(value=21).double())
    return out


def wrong_version():
    """does the module refuse another version of capnpy?"""
    pid = os.fork()
    if pid == 0:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        code = 3
        try:
            import capnpy.compiler.request, capnpy.util
            if how == 'import':
                capnpy.__version__ = '0.0.0.other'
            else:
                orig = capnpy.util.check_version

                def check(name, version):
                    if name.split('.')[-1] == modname:
                        os._exit(1)
                capnpy.util.check_version = check
            load()
            code = 0
        except ImportError:
            code = 1
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


r = wrong_version()
mod = load()
out = obs(mod)
out['version check'] = r
json.dump(out, sys.stdout, indent=1, sort_keys=True)
