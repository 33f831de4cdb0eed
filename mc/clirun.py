"""Runs `python -m capnpy ARGS` repeatedly in one process: a JSON list of arguments per line on stdin,
[exit status or exception, stdout, stderr] on stdout."""
import contextlib
import io
import json
import os
import runpy
import sys

reply = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
for line in sys.stdin:
    sys.argv = ['capnpy'] + json.loads(line)
    out, err = io.StringIO(), io.StringIO()
    status = 0
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            runpy.run_module('capnpy', run_name='__main__', alter_sys=True)
        except SystemExit as e:
            status = e.code or 0
        except Exception as e:
            status = type(e).__name__ + ': ' + str(e)
    reply.write(json.dumps([status, out.getvalue(), err.getvalue()]) + '\n')
    reply.flush()
