"""Drives a check: build, dispatch of cases to workers, known findings, evidence, exit code."""
import argparse
import fnmatch
import hashlib
import json
import os
import random
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import queue

from . import env as E
from . import build as B


def load_findings():
    p = os.path.join(E.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


class Check(object):
    """A check of one property.

    module      dotted name of the check module (has run_case(case, rec))
    flavour     build flavour (see build.py), or a callable case -> flavour
    """

    def __init__(self, prop, module, level='exploration', rule='', flavour='none',
                 assumptions=(), workers=8, timeout=150):
        self.prop = prop
        self.module = module
        self.level = level
        self.rule = rule
        self.flavour = flavour
        self.assumptions = list(assumptions)
        self.workers = workers
        self.timeout = timeout
        self.t0 = time.time()
        self.results = []      # (case, result)
        self.seed = E.seed()
        self.tier = E.tier()
        self.scratch = None
        self.extra_cov = {}
        self.errors = []
        self.trees = {}
        self.stop = None       # when to stop, after a violation
        self.known = [f for f in load_findings() if f.get('property') == prop and f.get('status') == 'known']

    # ---- building -------------------------------------------------------
    def tree(self, flavour=None):
        flavour = flavour or self.flavour
        if flavour not in self.trees:
            self.trees[flavour] = B.make_tree(flavour, os.path.join(self.scratch, 'tree-' + flavour))
        return self.trees[flavour]

    def deadline(self):
        d = self.t0 + (600 if self.tier == 'quick' else 36000)
        return min(d, self.stop) if self.stop else d

    def cutoff(self):
        """When a case that runs is cut off."""
        return self.deadline() + (0 if self.stop else 120)

    def saw(self, case, res):
        """After a violation the check goes on for a while only: broken code may hang in every case."""
        if self.stop is None and any(self._match(self.known, case, v) is None for v in res['violations']):
            self.stop = time.time() + 60

    # ---- running --------------------------------------------------------
    def start_worker(self, tree, extra_env, python):
        """A worker that got as far as MPI_Init (which may fail for reasons of the machine)."""
        for k in range(5):
            proc = Worker(self, tree, extra_env, python)
            if proc.read(120) == 'ready':
                return proc
            proc.stop()
            with open(os.path.join(E.CACHE, 'startup.log'), 'a') as f:
                f.write(proc.tail()+'\n')
            time.sleep(2*k+1)
        return None

    def run_serial(self, cases, flavour=None, extra_env=None, workers=None, python=None):
        """Runs cases in a pool of worker processes."""
        tree = self.tree(flavour)
        q = queue.Queue()
        for c in cases:
            q.put(c)
        n = min(workers or self.workers, max(1, len(cases)))
        lock = threading.Lock()
        out = []

        def loop(k):
            proc = None
            served = 0
            while True:
                try:
                    case = q.get_nowait()
                except queue.Empty:
                    break
                if time.time() > self.deadline():
                    with lock:
                        self.extra_cov['not_run_deadline'] = self.extra_cov.get('not_run_deadline', 0) + 1
                    continue
                attempt = 0
                while True:
                    if proc is None or served >= 60:
                        if proc is not None:
                            proc.stop()
                        proc = self.start_worker(tree, extra_env, python)
                        served = 0
                        if proc is None:
                            with lock:
                                self.errors.append('harness: no worker process starts')
                            return
                    served += 1
                    own = case.get('timeout', self.timeout)
                    res = proc.run(case, own, self.cutoff)
                    if res is None:
                        cut = proc.hung and proc.waited < own
                        st = proc.stop()
                        tail = proc.tail()
                        proc = None
                        if cut:
                            break
                        res = dict(violations=[dict(sig=st[0], msg=st[1], detail={'log': tail})],
                                   obs={}, skipped=None, nontrivial=False, sample=None, maxes={}, sets={})
                    break
                with lock:
                    if res is None:
                        self.extra_cov['not_run_deadline'] = self.extra_cov.get('not_run_deadline', 0) + 1
                        continue
                    out.append((case, res))
                    self.saw(case, res)
            if proc is not None:
                proc.stop()

        th = [threading.Thread(target=loop, args=(k,), daemon=True) for k in range(n)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        self.results += out
        return out

    def run_mpi(self, jobs, flavour=None, extra_env=None, slots=8):
        """jobs: list of (nprocs, [cases]); each job is one mpirun."""
        tree = self.tree(flavour)
        out = []
        lock = threading.Lock()
        sem = Slots(slots)

        def one(i, np_, cases):
            with sem.take(np_):
                if time.time() > self.deadline():
                    return
                d = tempfile.mkdtemp(prefix='mpi-', dir=self.scratch)
                cf, of = os.path.join(d, 'cases.json'), os.path.join(d, 'out.json')
                with open(cf, 'w') as f:
                    json.dump(cases, f)
                ev = E.base_env(tree, {'VERIF_SCRATCH': os.path.join(d, 'run')})
                ev.update(extra_env or {})
                log = os.path.join(d, 'log')
                tmo = sum(c.get('timeout', self.timeout) for c in cases)
                for attempt in range(4):
                    with open(log, 'w') as lf:
                        p = subprocess.Popen(['mpirun', '-np', str(np_), E.PY, '-m', 'vlib.worker',
                                              self.module, '--mpi', cf, of], env=ev, stdout=lf,
                                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                             start_new_session=True, cwd=d)
                        began = time.time()
                        while True:
                            try:
                                p.wait(timeout=1)
                                sig = ('crash:mpi', 'mpirun ended with status %s' % p.returncode)
                                break
                            except subprocess.TimeoutExpired:
                                now = time.time()
                            cut = now - began > 10 and now > self.cutoff()
                            if cut or now - began > tmo:
                                os.killpg(p.pid, signal.SIGKILL)
                                p.wait()
                                sig = ('cut' if cut else 'hang:mpi', 'no answer from %d ranks' % np_)
                                break
                    if os.path.exists(of + '.started') or os.path.exists(of) or sig[0] in ('hang:mpi', 'cut'):
                        break
                    # the processes did not come as far as MPI_Init: nothing to do with the code under test
                    with open(log) as f, open(os.path.join(E.CACHE, 'startup.log'), 'a') as g:
                        g.write(f.read()[-3000:])
                    time.sleep(2*attempt+1)
                else:
                    self.errors.append('harness: mpirun does not start processes')
                    return
                res = []
                for fn in (of, of + '.part'):
                    if os.path.exists(fn):
                        with open(fn) as f:
                            res = json.load(f)
                        break
                rows = list(zip(cases, res))
                if len(res) < len(cases) and any(r['violations'] for r in res):
                    pass        # stopped at the violation
                elif len(res) < len(cases) and sig[0] == 'cut':
                    with lock:
                        self.extra_cov['not_run_deadline'] = self.extra_cov.get('not_run_deadline', 0) + len(cases) - len(res)
                elif len(res) < len(cases):
                    with open(log) as f:
                        tail = f.read()[-3000:]
                    rows.append((cases[len(res)], dict(
                        violations=[dict(sig=sig[0], msg=sig[1], detail={'log': tail})], obs={},
                        skipped=None, nontrivial=False, sample=None, maxes={}, sets={})))
                with lock:
                    out.extend(rows)
                    for row in rows:
                        self.saw(*row)
                shutil.rmtree(d, ignore_errors=True)

        th = [threading.Thread(target=one, args=(i, n, c), daemon=True) for i, (n, c) in enumerate(jobs)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        self.results += out
        return out

    def add_result(self, case, rec):
        self.results.append((case, rec.result() if hasattr(rec, 'result') else rec))

    # ---- finishing ------------------------------------------------------
    def finish(self):
        findings = [f for f in load_findings() if f.get('property') == self.prop and f.get('status') == 'known']
        known, new = {}, []
        obs, maxes, sets = {}, {}, {}
        nontrivial = set()
        samples = []
        skipped = 0
        for case, r in self.results:
            for k, v in r['obs'].items():
                obs[k] = obs.get(k, 0) + v
            for k, v in r['maxes'].items():
                maxes[k] = max(maxes.get(k, v), v)
            for k, v in r['sets'].items():
                sets.setdefault(k, set()).update(v)
            if r.get('skipped'):
                skipped += 1
            if r.get('harness_error'):
                self.errors.append('harness: %s\n   case: %s' % (r['harness_error'], json.dumps(case)[:500]))
            if r['nontrivial']:
                nontrivial.add(json.dumps(case, sort_keys=True))
                if len(samples) < 4 and r.get('sample') is not None:
                    samples.append({'case': case, 'observed': r['sample']})
            for v in r['violations']:
                f = self._match(findings, case, v)
                if f is not None:
                    known.setdefault(f['id'], (f, case, v))
                else:
                    new.append((case, v))
        if not samples:
            samples = [{'case': c} for c, _ in self.results[:2]]
        cov = dict(evaluations=len(self.results), distinct_nontrivial=len(nontrivial),
                   rule=self.rule, samples=samples, monitor_observations=obs,
                   largest_deviation_seen=maxes,
                   distinct_seen={k: len(v) for k, v in sets.items()},
                   skipped=skipped, known_findings_hit=sorted(known),
                   source_hash=B.source_hash())
        cov.update(self.extra_cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(E.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(E.VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for f, case, v in known.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        code = 0
        if new:
            code = 1
            os.makedirs(os.path.join(E.VERIF, 'replays'), exist_ok=True)
            seen = set()
            for case, v in new:
                if v['sig'] in seen:
                    continue
                seen.add(v['sig'])
                if len(seen) > 8:
                    break
                h = hashlib.sha256(json.dumps([case, v['sig']], sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(E.VERIF, 'replays', '%s-%s.json' % (self.prop, h))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, check=self.module, case=case, violation=v), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('   [%s] %s' % (v['sig'], v['msg'][:600]))
                if v.get('detail', {}).get('trace'):
                    print('   ' + v['detail']['trace'][-1200:].replace('\n', '\n   '))
                elif v.get('detail', {}).get('log'):
                    print('   ' + v['detail']['log'][-1500:].replace('\n', '\n   '))
                print('   case: %s' % json.dumps(case)[:600])
        if self.errors:
            for e in self.errors[:3]:
                print('ERROR ' + e)
            code = code or 2
        if not self.results:
            print('ERROR no case was run')
            code = code or 2
        elif code == 0 and not nontrivial:
            print('ERROR no non-trivial case was observed')
            code = 2
        print('%s: %d cases (%d distinct non-trivial), %s, %.1f s, exit %d' % (
            self.prop, len(self.results), len(nontrivial),
            ', '.join('%s=%d' % kv for kv in sorted(obs.items())), time.time() - self.t0, code))
        return code

    @staticmethod
    def _match(findings, case, v):
        for f in findings:
            if not fnmatch.fnmatchcase(v['sig'], f['sig']):
                continue
            ok = True
            for k, want in f.get('case', {}).items():
                got = case.get(k)
                if isinstance(want, list):
                    ok = ok and got in want
                else:
                    ok = ok and got == want
            if ok and f.get('msg') and f['msg'] not in v['msg']:
                ok = False
            if ok:
                return f
        return None


class Slots(object):
    def __init__(self, n):
        self.n = n
        self.free = n
        self.cv = threading.Condition()

    def take(self, k):
        return _Take(self, min(k, self.n))


class _Take(object):
    def __init__(self, s, k):
        self.s, self.k = s, k

    def __enter__(self):
        with self.s.cv:
            while self.s.free < self.k:
                self.s.cv.wait()
            self.s.free -= self.k

    def __exit__(self, *a):
        with self.s.cv:
            self.s.free += self.k
            self.s.cv.notify_all()


class Worker(object):
    def __init__(self, check, tree, extra_env, python=None):
        self.dir = tempfile.mkdtemp(prefix='w-', dir=check.scratch)
        r, w = os.pipe()
        ev = E.base_env(tree, {'VERIF_SCRATCH': self.dir, 'VERIF_FD': str(w)})
        E.singleton(ev, self.dir)
        ev.update(extra_env or {})
        self.log = open(os.path.join(self.dir, 'log'), 'w+')
        self.p = subprocess.Popen((python or [E.PY]) + ['-m', 'vlib.worker', check.module], env=ev,
                                  stdin=subprocess.PIPE, stdout=self.log, stderr=subprocess.STDOUT,
                                  pass_fds=(w,), cwd=self.dir, start_new_session=True)
        os.close(w)
        self.r = r
        self.buf = b''
        self.hung = False
        self.waited = 0

    def run(self, case, timeout, cutoff=None):
        try:
            self.p.stdin.write((json.dumps(case) + '\n').encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        return self.read(timeout, cutoff)

    def read(self, timeout, cutoff=None):
        start = time.time()
        end = start + timeout
        sel = selectors.DefaultSelector()
        sel.register(self.r, selectors.EVENT_READ)
        while b'\n' not in self.buf:
            now = time.time()
            left = end - now
            if cutoff is not None and now - start > 5:
                left = min(left, cutoff() - now)
            if left <= 0:
                self.hung = True
                self.waited = now - start
                sel.close()
                return None
            if sel.select(min(left, 1)):
                d = os.read(self.r, 1 << 16)
                if not d:
                    sel.close()
                    return None
                self.buf += d
        sel.close()
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        if self.hung:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        try:
            self.p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        self.log.flush()
        self.log.seek(0)
        self._tail = self.log.read()[-4000:]
        os.close(self.r)
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.hung:
            return ('hang', 'no answer within the time limit')
        return ('crash:process', 'the worker process died (status %s)' % self.p.returncode)

    def tail(self):
        return self._tail


def main(check, make_jobs):
    """Entry point of a check. make_jobs(check, rng) runs the workload through the check."""
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--tier')
    ap.add_argument('--seed', type=int)
    a = ap.parse_args()
    if a.tier:
        check.tier = a.tier
    if a.seed is not None:
        check.seed = a.seed
    os.makedirs(E.CACHE, exist_ok=True)
    check.scratch = tempfile.mkdtemp(prefix='run-%s-' % check.prop, dir=E.CACHE)
    try:
        rng = random.Random('%s/%d' % (check.prop, check.seed))
        try:
            if a.replay:
                with open(a.replay) as f:
                    rp = json.load(f)
                c = rp['case']
                kw = {k: c[k] for k in ('flavour',) if k in c}
                if hasattr(check, 'replay_env'):
                    kw['extra_env'] = check.replay_env(c)
                if c.get('np', 1) > 1:
                    check.run_mpi([(c['np'], [c])], **kw)
                else:
                    check.run_serial([c], **kw)
            else:
                make_jobs(check, rng)
        except B.BuildError as e:
            print('ERROR build: %s' % e)
            return 2
        return check.finish()
    finally:
        shutil.rmtree(check.scratch, ignore_errors=True)
