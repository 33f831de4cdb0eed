"""
Builds a workspace from the repository's current working tree, outside of it,
keyed by content.  Run with plain python3.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAPNPY_REPO', '/repo')
CACHE = os.environ.get('CAPNPY_MC_CACHE', os.path.join(VERIF, '.cache'))
CPYTHON = '/opt/venv/bin/python'
PYPY = '/opt/venv-pypy/bin/python'
SKIP_DIRS = {'__pycache__', 'testing', 'benchmarks'}
KEEP = int(os.environ.get('CAPNPY_MC_KEEP', '6'))


def base_env():
    env = {}
    for line in ('HOME', 'TMPDIR', 'VERIF_SEED', 'VERIF_TIER'):
        if line in os.environ:
            env[line] = os.environ[line]
    env.setdefault('HOME', '/root')
    env.update(LANG='C.UTF-8', LC_ALL='C.UTF-8',
               PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               SETUPTOOLS_SCM_PRETEND_VERSION_FOR_CAPNPY='0.8.7')
    return env


def _generated(path):
    with open(path, 'rb') as f:
        head = f.read(200)
    return head.startswith(b'/* Generated by Cython') or head.startswith(b'#error Do not use this file')


def sources(repo=REPO):
    out = []
    for n in ('setup.py', 'README.md'):
        if os.path.exists(os.path.join(repo, n)):
            out.append(n)
    for d, dirs, names in os.walk(os.path.join(repo, 'capnpy')):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for n in sorted(names):
            p = os.path.join(d, n)
            if n.endswith(('.so', '.pyc', '.html', '.o')) or not os.path.isfile(p):
                continue
            if n.endswith('.c') and _generated(p):
                continue
            out.append(os.path.relpath(p, repo))
    return out


def source_hash(repo=REPO):
    h = hashlib.sha256()
    for p in sources(repo):
        h.update(p.encode() + b'\0')
        with open(os.path.join(repo, p), 'rb') as f:
            h.update(f.read() + b'\0')
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def _copy(repo, dst):
    for p in sources(repo):
        q = os.path.join(dst, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(os.path.join(repo, p), q)


def _prune(keep):
    try:
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('ws-')]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-KEEP] if len(ds) > KEEP else []:
            if d not in keep and time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def workspace(variant, repo=REPO):
    """variant: 'pure' (no compilation), 'ext' (as setup.py builds it), 'asan'.
    Returns the directory to put on PYTHONPATH."""
    os.makedirs(CACHE, exist_ok=True)
    key = source_hash(repo)
    d = os.path.join(CACHE, 'ws-%s-%s' % (key, variant))
    with open(d + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, '.ok')):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _copy(repo, d)
        if variant != 'pure':
            env = base_env()
            if variant == 'asan':
                env['CFLAGS'] = '-O1 -g -fno-omit-frame-pointer -fsanitize=address'
                env['LDFLAGS'] = env['LDSHARED_FLAGS'] = '-fsanitize=address'
            p = subprocess.run([CPYTHON, 'setup.py', 'build_ext', '--inplace', '-j8'], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                sys.stdout.write(p.stdout.decode('utf-8', 'replace')[-4000:])
                raise BuildError('setup.py build_ext failed (%s)' % variant)
            shutil.rmtree(os.path.join(d, 'build'), ignore_errors=True)
        with open(os.path.join(d, '.ok'), 'w'):
            pass
        _prune({d})
        return d


if __name__ == '__main__':
    for v in sys.argv[1:] or ['pure', 'ext']:
        t = time.time()
        print(workspace(v), '%.1fs' % (time.time() - t))
