"""
Runs one check: builds the workspaces, runs the workers of every mode/shard, collates the
results, writes the evidence and the replay files, prints the verdict.
"""
import argparse
import array
import concurrent.futures
import fnmatch
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from mc import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')
DEADLINE = {'quick': int(os.environ.get('MC_DEADLINE', 800)), 'thorough': 4 * 3600}


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


class Job(object):
    def __init__(self, mode, shard, nshards):
        self.mode, self.shard, self.nshards = mode, shard, nshards
        self.name = '%s.%d' % (mode, shard)


def big_stack():
    """the C stack of unoptimized and sanitized code is larger; the recursion limits of CPython assume optimized code"""
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 256 << 20
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


def run_job(job, prop, tier, scratch, ext_future, asan_future, args, deadline):
    t0 = time.time()
    if job.mode == 'pypy':
        ws, python = build.workspace('pure'), build.PYPY
    elif job.mode == 'pure':
        ws, python = build.workspace('pure'), build.CPYTHON
    elif job.mode == 'asan':
        ws, python = asan_future.result(), build.CPYTHON
    else:
        ws, python = ext_future.result(), build.CPYTHON
    d = os.path.join(scratch, job.name)
    os.makedirs(d)
    out = os.path.join(d, 'result.json')
    env = build.base_env()
    env.update(TMPDIR=d, PYTHONPATH=ws + os.pathsep + VERIF, CAPNPY_MC_WS=ws,
               CAPNPY_MC_CPYTHON=build.CPYTHON, CAPNPY_MC_PYPY=build.PYPY)
    env['CFLAGS'] = '-O0 -g0 -w' if job.mode == 'pyx' else ''
    if tier == 'thorough' or getattr(args, 'hashseed', None):
        pass
    if job.mode == 'asan':
        lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
        env.update(LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC='malloc',
                   ASAN_OPTIONS='detect_leaks=0:handle_segv=1:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=64:fast_unwind_on_malloc=1')
    cmd = [python, '-m', 'mc.worker', prop, job.mode, tier, str(job.shard), str(job.nshards), out]
    if args.replay:
        cmd += ['--replay', args.replay]
    if args.scenario:
        cmd += ['--scenario', args.scenario]
    log = os.path.join(d, 'log')
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True, preexec_fn=big_stack if job.mode in ('asan', 'pyx') else None)
        try:
            rc = p.wait(timeout=max(10, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.kill(p.pid, signal.SIGABRT)         # faulthandler shows where it is
            time.sleep(1)
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
    try:
        os.killpg(p.pid, signal.SIGKILL)     # leftovers of the worker
    except OSError:
        pass
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    with open(log, 'rb') as f:
        tail = f.read()[-6000:].decode('utf-8', 'replace')
    if res is None:
        res = dict(violations=[], scenarios={}, transitions=0, traces=0, samples=[], notes={}, complete=False)
    if rc != 0 or not res.get('complete'):
        # the interpreter died: an observation of the implementation
        cur = None
        prog = os.path.join(d, 'progress')
        if os.path.exists(prog):
            with open(prog, 'rb') as f:
                cur = f.read().split(b'\0')[0].decode('utf-8', 'replace')
        if not [v for v in res['violations'] if not v.get('soft')] or rc == 'timeout' or rc != 0:
            try:
                sc, choices = json.loads(cur)
            except Exception:
                sc, choices = None, None
            res['violations'].append(dict(
                scenario=sc, choices=choices, labels=[],
                key='crash:%s' % sc,
                msg='worker ended abnormally (%s); last execution: %s' % (rc, cur), log=tail))
    for v in res['violations']:
        v['mode'] = job.mode
        v['shard'] = [job.shard, job.nshards]
    res['wall'] = time.time() - t0
    res['tail'] = tail
    res['states_file'] = os.path.join(d, 'states')
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--mode')
    ap.add_argument('--scenario')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    prop = args.prop
    tier = args.tier
    sys.path.insert(0, VERIF)
    check = importlib.import_module('mc.checks.%s' % prop.lower())
    t0 = time.time()
    deadline = t0 + DEADLINE[tier]
    modes = list(check.MODES)
    if args.replay:
        args.replay = os.path.abspath(args.replay)
        with open(args.replay) as f:
            r = json.load(f)
        modes = [r['mode']]
    if args.mode:
        modes = args.mode.split(',')
    jobs = []
    for m in modes:
        n = 1
        sh = getattr(check, 'SHARDS', {}).get(tier, {})
        n = sh.get(m, 1)
        if args.replay:
            n = 1
        jobs += [Job(m, i, n) for i in range(n)]
    jobs.sort(key=lambda j: {'pypy': 0, 'pure': 0, 'asan': 1}.get(j.mode, 2))
    scratch = tempfile.mkdtemp(prefix='capnpy-mc-')
    try:
        with concurrent.futures.ThreadPoolExecutor(12) as pool:
            ext = asan = None
            if any(j.mode in ('pyx', 'cpy') for j in jobs):
                ext = pool.submit(build.workspace, 'ext')
            if any(j.mode == 'asan' for j in jobs):
                asan = pool.submit(build.workspace, 'asan')
            futs = [(j, pool.submit(run_job, j, prop, tier, scratch, ext, asan, args, deadline)) for j in jobs]
            results = []
            for j, f in futs:
                r = f.result()
                results.append((j, r))
                if args.v:
                    print('  %s: %.1fs traces=%d transitions=%d violations=%d' %
                          (j.name, r['wall'], r['traces'], r['transitions'], len(r['violations'])))
                    print('      ' + ' '.join('%s:%d/%.1fs' % (k, n, w) for k, (n, w) in r['scenarios'].items()))
                    if not r.get('complete') or args.v and r['tail'].strip():
                        print(r['tail'])
        return finish(check, prop, tier, args, results, t0)
    except build.BuildError as e:
        print('BUILD ERROR: %s' % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def finish(check, prop, tier, args, results, t0):
    known = load_known(prop)
    seen_known = {}
    viol = []
    for j, r in results:
        for v in r['violations']:
            for kf in known:
                if fnmatch.fnmatchcase(v['key'], kf['key']):
                    seen_known.setdefault(kf['key'], (kf, v))
                    break
            else:
                viol.append(v)
    for key, (kf, v) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    nstates = 0
    seen = {}
    for j, r in results:
        s = seen.setdefault(j.mode, set())
        if os.path.exists(r['states_file']):
            a = array.array('Q')
            with open(r['states_file'], 'rb') as f:
                a.frombytes(f.read())
            s.update(a)
    nstates = sum(len(s) for s in seen.values())
    traces = sum(r['traces'] for _, r in results)
    transitions = sum(r['transitions'] for _, r in results)
    scen = {}
    for j, r in results:
        for name, (n, w) in r['scenarios'].items():
            e = scen.setdefault(name, {})
            e[j.mode] = e.get(j.mode, 0) + n
    if not args.replay and not args.no_evidence and not args.scenario and not args.mode:
        samples = []
        for j, r in results:
            samples += r['samples'][:3]
        notes = {}
        for j, r in results:
            for k_, v_ in r.get('notes', {}).items():
                if isinstance(v_, (int, float)) and not isinstance(v_, bool):
                    notes[k_] = notes.get(k_, 0) + v_
                else:
                    notes.setdefault(k_, v_)
        ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
                  coverage=dict(states=nstates, transitions=transitions, traces_validated_against_impl=traces,
                                samples=samples[:12], exhaustive=not viol,
                                bounds=getattr(check, 'BOUNDS', {}).get(tier, getattr(check, 'BOUNDS', {}).get('quick', '')),
                                executions_per_scenario=scen,
                                worker_seconds={j.name: round(r['wall'], 1) for j, r in results},
                                model_validation=notes),
                  assumptions=list(getattr(check, 'ASSUMPTIONS', [])),
                  wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
    print('%s %s: %d states, %d transitions, %d executions on the real code, %.1fs' %
          (prop, tier, nstates, transitions, traces, time.time() - t0))
    if not viol:
        if traces == 0:
            print('no execution was run')
            return 2
        return 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    shown = set()
    for i, v in enumerate(viol):
        if v['key'] in shown or len(shown) >= 8:
            continue
        shown.add(v['key'])
        path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, len(shown)))
        v['property'] = prop
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   mode=%s scenario=%s key=%s' % (v['mode'], v['scenario'], v['key']))
        print('   %s' % v['msg'])
        if v.get('labels'):
            print('   with %s' % ' '.join(v['labels']))
        if args.v:
            print(v.get('log', ''))
    return 1


if __name__ == '__main__':
    sys.exit(main())
