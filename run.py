#!/usr/bin/env python
"""Entry point:  ./py run.py <PROPERTY>   (VERIF_TIER=quick|thorough, VERIF_SEED)

Runs the jobs of checks/<property>.py against /repo's current working tree, in parallel worker processes, merges
what they report, writes evidence/<property>.json and exits 0 / 1.
"""
import os
import sys
import json
import time
import signal
import subprocess
import tempfile
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def load(pid):
    import importlib
    return importlib.import_module('checks.%s' % pid.lower())


class Hang(BaseException):
    """the real code does not return"""


HANG_S = float(os.environ.get('VERIF_HANG', '75'))


def watch_hangs():
    """raise Hang if one call into /repo burns more than HANG_S seconds of this thread's CPU time"""
    seen = {'frame': None, 't': 0.0}

    def tick(sig, frame):
        f, outer, inner = frame, None, None
        while f is not None:
            if f.f_code.co_filename.startswith(REPO + '/'):
                outer = f
                inner = inner or f
            f = f.f_back
        now = time.thread_time()
        if outer is None or outer is not seen['frame']:
            seen.update(frame=outer, t=now)
        elif now - seen['t'] > HANG_S:
            seen.update(frame=None, t=now)
            raise Hang('%s (called from %s) has not returned after %d s of CPU time; last seen at %s:%d' % (inner.f_code.co_name, outer.f_code.co_name, HANG_S, inner.f_code.co_filename[len(REPO) + 1:], inner.f_lineno))
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 1.5, 1.5)


def worker(pid, spec, out):
    from lib.contract import Check
    mod = load(pid)
    jobs = mod.jobs() if hasattr(mod, 'jobs') else mod.JOBS
    lo, step = map(int, spec.split('/'))
    ck = Check(pid)
    watch_hangs()
    for i, (name, fn) in enumerate(jobs):
        if ck.hung:
            break
        if i % step != lo:
            continue
        only = os.environ.get('VERIF_ONLY')
        if only and only not in name:
            continue
        run_job(ck, name, fn)
    text = json.dumps(ck.state(), default=str)
    with open(out + '.tmp', 'w') as f:
        f.write(text)
    os.rename(out + '.tmp', out)


def run_job(ck, name, fn):
    t = time.time()
    try:
        fn(ck)
    except Hang as e:
        ck.hung = True
        cur = ck.current
        ck.violate(cur[0] if cur else name, 'the real code does not terminate: %s' % e, data=dict(case=str(cur[1])[:2000]) if cur else None)
    except Exception as e:
        tb = traceback.format_exc()
        # an exception raised by the code under verification (innermost frame in /repo) violates the contract
        frames = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in frames if f.filename.startswith(REPO + '/')]
        if inrepo and (frames[-1].filename.startswith(REPO + '/') or frames[-1].filename.find('site-packages') >= 0
                       or 'lib/python' in frames[-1].filename):
            ck.violate(name, 'real code raised %s: %s\n%s' % (type(e).__name__, str(e)[:400], tb[-1500:]))
        else:
            ck.errors.append('%s: %s' % (name, tb[-2500:]))
    ck.job_times[name] = round(time.time() - t, 2)


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--worker':
        worker(pid, sys.argv[3], sys.argv[4])
        return 0
    from lib.contract import Check
    mod = load(pid)
    jobs = mod.jobs() if hasattr(mod, 'jobs') else mod.JOBS
    n = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, len(jobs))
    ck = Check(pid)
    with tempfile.TemporaryDirectory(prefix='verif_') as d:
        procs = []
        for k in range(n):
            out = os.path.join(d, '%d.json' % k)
            env = dict(os.environ)
            env.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
            env.setdefault('OMP_NUM_THREADS', '1')
            log = open(os.path.join(d, '%d.log' % k), 'w+')
            procs.append((out, log, subprocess.Popen(
                [sys.executable, '-W', 'ignore', os.path.abspath(__file__), pid, '--worker', '%d/%d' % (k, n), out],
                stdout=log, stderr=subprocess.STDOUT, env=env, cwd=VERIF)))
        for out, log, p in procs:
            try:
                p.wait(timeout=max(10, ck.time_left() + 240))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.seek(0)
            text = log.read()
            if os.environ.get('VERIF_VERBOSE'):
                sys.stdout.write(text)
            if os.path.exists(out):
                with open(out) as f:
                    ck.merge(json.load(f))
            else:
                ck.errors.append('worker failed (exit %s): %s' % (p.returncode, text[-2000:]))
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main())
