"""Builds schemas the way a setup.py does, repeatedly in one process: a JSON object per line on stdin, [error or null, extensions] on stdout.
{"cwd": dir, "how": "capnpify"|"schemas", "files": pattern or list, "pyx": ..., "options": {...} or null, "build": bool}
"""
import contextlib
import io
import json
import os
import sys

reply = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
from setuptools import Distribution
from capnpy.annotate import Options
from capnpy.compiler import distutils as D

for line in sys.stdin:
    r = json.loads(line)
    os.chdir(r['cwd'])
    err, exts = None, None
    try:
        with contextlib.redirect_stdout(sys.stderr):
            dist = Distribution({'name': 'foo', 'script_name': 'setup.py'})
            if r['how'] == 'capnpify':
                o = Options.from_dict(r['options']) if r['options'] is not None else None
                dist.ext_modules = D.capnpify(r['files'], r['pyx'], o)
            else:
                # what setuptools does with the keywords of setup()
                o = dict(r['options'] or {}, pyx=r['pyx'])
                if r['pyx'] == 'auto':
                    del o['pyx']
                dist.capnpy_options = o if o or r['options'] is not None else None
                if dist.capnpy_options is not None:
                    D.capnpy_options(dist, 'capnpy_options', dist.capnpy_options)
                D.capnpy_schemas(dist, 'capnpy_schemas', r['files'])
            exts = [e.name for e in dist.ext_modules]
            if r.get('build') and exts:
                dist.script_args = ['build_ext', '--inplace']
                dist.parse_command_line()
                dist.run_commands()
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e)
    reply.write(json.dumps([err, exts]) + '\n')
    reply.flush()
