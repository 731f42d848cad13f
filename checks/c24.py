"""C24: instrumentation options observe the run: they do not change it, and what they report is true."""
import io
import re
import sys
import time

import numpy as np

from vlib import periodic as P, channel as C, chrun as H, runner

WALL = 0.0


class Out(object):
    """What is printed."""

    def __enter__(self):
        self.old, sys.stdout = sys.stdout, io.StringIO()
        return self

    def __exit__(self, *a):
        self.text = sys.stdout.getvalue()
        sys.stdout = self.old


def start(case, options):
    """A run with these options, ready to be started; gather() is its state."""
    o = dict(options)
    o.setdefault('verbose', False)
    if 'planner_effort' in o:
        o['planner_effort'] = dict(o['planner_effort'])
    if case['solver'] in C.SOLVERS:
        sim = H.start(case, extra=o)
        FST = sim.context.FST

        def state():
            u = np.array(sim.solver.get_velocity(**sim.context))
            out = np.zeros((3,)+tuple(FST.global_shape(False)))
            for sl, a in sim.comm.allgather((tuple(FST.local_slice(False)), u)):
                out[(slice(None),)+sl] = a
            return out
    else:
        sim = P.setup(case, extra=o)
        P.put(sim, sim.context.u, P.init_field(case, sim.grid))

        def state():
            return P.gather(sim, sim.context.u)
    sim.context.hdf5file = C.NoFile()
    sim.state = state
    return sim


def options(case, rec):
    """The run with the options is the run without."""
    logs = []
    for o in ({}, case['options']):
        log = []
        sim = start(case, o)
        sim.solver.update = lambda c: log.append((float(sim.params.t), int(sim.params.tstep), sim.state()))
        with Out() as out:
            sim.sd.solve(sim.solver, sim.context)
        logs.append(log)
        if sim.comm.Get_rank() == 0:
            said = 'Fastest' in out.text
            rec.check(said == bool(o.get('verbose')), 'verbose',
                      'verbose=%r, and timings are%s printed' % (o.get('verbose'), '' if said else ' not'))
        for k, v in o.items():
            if k != 'planner_effort':
                rec.check(getattr(sim.params, k) == v, 'option kept', '%s is %r after the run, was %r' % (k, getattr(sim.params, k), v))
    a, b = logs
    rec.check(len(a) == len(b) > 0, 'steps', '%d steps with %r, %d without' % (len(b), case['options'], len(a)))
    for (t, n, u), (t1, n1, u1) in zip(a, b):
        rec.check(abs(t-t1) <= 1e-9*max(1, t) and n == n1, 'time', 'time %r, step %r with %r, %r, %r without' % (t1, n1, case['options'], t, n))
        rec.close('state at step %d with %r' % (n, case['options']), u1, u, 1e-9, scale=max(np.abs(u).max(), 1e-10), sig='state')
        rec.count('steps_compared')
    rec.sample = dict(steps=len(a), **rec.maxes)


def pairs(text, name):
    m = re.search(name+r'\s*=\s*\(([^,]*),([^)]*)\)', text)
    return [float(re.sub(r'[^0-9.e+-]', '', x.replace('np.float64', ''))) for x in m.groups()] if m else None


def timings(case, rec):
    """The report of step timings against the delays of the steps. All bounds are certain, whatever the load."""
    sim = start(case, dict(verbose=True))
    rank, size = sim.comm.Get_rank(), sim.comm.Get_size()
    delays = case['delays'][rank % len(case['delays'])]
    n = [0]

    def update(c):
        time.sleep(delays[n[0] % len(delays)])
        n[0] += 1
    sim.solver.update = update
    ends, last = sim.solver.end_of_tstep, [0.0]

    def end_of_tstep(c):
        last[0] = time.time()       # the step has been timed
        return ends(c)
    sim.solver.end_of_tstep = end_of_tstep
    sim.comm.barrier()
    with Out() as out:
        t0 = time.time()
        sim.sd.solve(sim.solver, sim.context)
        wall = time.time()-t0
    used = [delays[i % len(delays)] for i in range(n[0])]
    rows = sim.comm.allgather((min(used), max(used), sum(used), last[0]-t0, n[0], wall))
    if rank:
        return
    text = out.text
    fast, slow = pairs(text, 'Fastest'), pairs(text, 'Slowest')
    m = re.search(r'Time\s*=\s*([0-9.e+-]+)', text)
    rec.check(fast is not None and slow is not None and m, 'report', 'no timings in %r' % text[-300:])
    if not m or not fast or not slow:
        return
    total = float(m.group(1))
    lo, hi, tot, w, k, walls = (list(x) for x in zip(*rows))
    eps = 2e-3      # time() may be adjusted
    wall0 = walls[0]
    rec.check(tot[0]-eps <= total <= wall0+eps, 'total time', 'Time is reported as %r, the run took %r (delays %r)' % (total, wall0, tot[0]))
    said = 'Fastest = %r, Slowest = %r; delays per rank: least %r, most %r, walls %r, %d steps' % (fast, slow, lo, hi, w, k[0])
    ok = lambda c, sig: rec.check(c, sig, said)
    ok(fast[0] <= fast[1] and fast[0] <= slow[0] and fast[1] <= slow[1] and slow[0] <= slow[1], 'order')
    ok(fast[0] >= min(lo)-eps, 'fastest fast')
    ok(fast[0] <= min(a/b for a, b in zip(w, k))+eps, 'fastest fast')
    ok(slow[0] >= max(lo)-eps, 'slowest fast')
    ok(slow[0] <= max(a/b for a, b in zip(w, k))+eps, 'slowest fast')
    most = [a-b+c for a, b, c in zip(w, tot, hi)]
    ok(fast[1] >= min(hi)-eps, 'fastest slow')
    ok(fast[1] <= min(most)+eps, 'fastest slow')
    ok(slow[1] >= max(hi)-eps, 'slowest slow')
    ok(slow[1] <= max(most)+eps, 'slowest slow')
    # with these delays no rank's fastest step is its slowest
    if all(a/b < 0.8*c for a, b, c in zip(w, k, hi)):
        rec.count('separated')
    if min(most) < 0.9*max(hi):
        rec.count('ranks_separated')
    rec.count('reports')
    rec.sample = dict(fast=fast, slow=slow, total=total)


def profile(case, rec):
    """The profile against calls that were counted and delayed."""
    sim = start(case, dict(make_profile=1))
    rank = sim.comm.Get_rank()
    delay = case['delay'][rank % len(case['delay'])]
    calls, steps = [0], [0]
    first = [None]
    get = sim.solver.getConvection

    def slowed(kind):
        f = get(kind)

        def wait(*a, **k):
            calls[0] += 1
            time.sleep(delay)
            return f(*a, **k)
        return wait
    sim.solver.getConvection = slowed

    def update(c):
        steps[0] += 1
        if steps[0] == 1:
            first[0] = (calls[0], time.time())
    sim.solver.update = update
    sim.comm.barrier()
    with Out() as out:
        sim.sd.solve(sim.solver, sim.context)
        end = time.time()
    slept = delay*(calls[0]-first[0][0])        # profiling starts after the first step
    wall = end-first[0][1]
    rows = sim.comm.allgather((slept, wall, calls[0]))
    res = sim.solver.results
    rec.check(isinstance(res, dict), 'profile', 'no profile')
    if rank:
        return
    rec.check('Printing profiling' in out.text, 'profile', 'the profile is not printed')
    lo, most = min(r[0] for r in rows), max(r[0] for r in rows)
    walls = max(r[1] for r in rows)
    rec.check('ComputeRHS' in res, 'profile', 'ComputeRHS is not in the profile: %r' % sorted(res))
    for k, v in res.items():
        rec.count('profile_entries')
        rec.check(len(v) == 4 and 0 <= v[0] <= v[1]+1e-9 and 0 <= v[2] <= v[3]+1e-9 and v[0] <= v[2]+1e-6 and v[1] <= v[3]+1e-6 and v[3] <= walls+0.01,
                  'profile', '%s: total min/max, cumulative min/max is %r, the run took %r' % (k, v, walls))
        rec.check('%-12s' % k in out.text, 'profile', '%s is not printed' % k)
    names = ['ComputeRHS'] + [case['integrator']] if 'integrator' in case and case['integrator'] in res else ['ComputeRHS']
    for k in names:
        if k in res:
            v = res[k]
            rec.check(v[2] >= lo*0.98-1e-3 and v[3] >= most*0.98-1e-3, 'profile time',
                      '%s: cumulative time %r..%r, but %r..%r passed in it' % (k, v[2], v[3], lo, most))
            rec.check(v[1] <= walls-most+0.01, 'profile time', '%s: %r spent in it alone, at most %r possible' % (k, v[1], walls-most))
            rec.count('profile_times')
    rec.sample = dict(entries=sorted(res), delay=[lo, most], ComputeRHS=res.get('ComputeRHS'))


def status():
    out = {}
    with open('/proc/self/status') as f:
        for line in f:
            if line.startswith(('VmRSS', 'VmSize')):
                out[line.split(':')[0]] = int(line.split()[1])/1024
    return out


def memory(case, rec):
    """MemoryUsage against the kernel's account, with known allocations."""
    sim = start(case, {})
    comm = sim.comm
    hold = []
    from spectralDNS.utilities import MemoryUsage
    m = None
    last = None
    for i, mb in enumerate(case['mb']):
        mine = mb[comm.Get_rank() % len(mb)]
        if mine:
            hold.append(np.ones(mine << 17))
        a = status()
        with Out() as out:
            if m is None:
                m = MemoryUsage('part %d' % i)
            else:
                m('part %d' % i)
        b = status()
        rows = comm.allgather((a['VmRSS'], b['VmRSS'], a['VmSize'], b['VmSize']))
        if comm.Get_rank():
            continue
        tol = 4*len(rows)+1
        for what, got, lo, hi in (('resident', m.memory, sum(min(r[:2]) for r in rows), sum(max(r[:2]) for r in rows)),
                                  ('virtual', m.memory_vm, sum(min(r[2:]) for r in rows), sum(max(r[2:]) for r in rows))):
            rec.check(lo-tol <= got <= hi+tol, 'memory', '%s memory of %d ranks is reported as %r MB, it is %.1f..%.1f' % (what, len(rows), got, lo, hi))
            rec.count('memory_reports')
        line = [x for x in out.text.splitlines() if x.startswith('part %d' % i)]
        rec.check(len(line) == 1, 'memory', 'not printed: %r' % out.text)
        nums = [int(x) for x in re.findall(r'(-?\d+) MB', line[0])] if line else []
        prev = last or (0, 0)
        rec.check(nums == [m.memory-prev[0], m.memory, m.memory_vm-prev[1], m.memory_vm], 'memory',
                  'printed %r, found %r after %r' % (nums, (m.memory, m.memory_vm), prev))
        last = (m.memory, m.memory_vm)
    rec.sample = dict(found=last)


def run_case(case, rec):
    {'options': options, 'timings': timings, 'profile': profile, 'memory': memory}[case['kind']](case, rec)
    rec.seen('config', [case['kind'], case['solver'], sorted(case.get('options', {}).items(), key=str)])
    rec.nontrivial = True


def flow(rng, solver=None, steps=3):
    solver = solver or rng.choice(['NS', 'VV', 'MHD', 'NS2D', 'Bq2D']+list(C.SOLVERS))
    if solver in C.SOLVERS:
        c = H.random_case(rng, (solver,))
        c['N'] = [24, 8, 8]
        c['T'] = c['dt']*(steps+0.3)
        return c
    c = P.random_case(rng, (solver,))
    c['N'] = [8, 12, 8][:len(c['N'])]
    c['mask_nyquist'] = True
    P.defaults(rng, c, (steps,), cfl=0.05)
    if c['integrator'] == 'BS5_adaptive':
        c['integrator'] = 'BS5_fixed'
    return c


def option(rng):
    o = {}
    while not o:
        if rng.random() < 0.5:
            o['threads'] = rng.choice([2, 3])
        if rng.random() < 0.5:
            e = rng.choice(['FFTW_ESTIMATE', 'FFTW_ESTIMATE', 'FFTW_MEASURE', 'FFTW_PATIENT'])
            o['planner_effort'] = {k: e for k in ('fft', 'dct')}
        if rng.random() < 0.4:
            o['make_profile'] = 1
        if rng.random() < 0.5:
            o['verbose'] = True
    return o


def make(rng, kind, solver=None):
    if kind == 'options':
        c = flow(rng, solver)
        c['options'] = option(rng)
    elif kind == 'timings':
        c = flow(rng, solver or rng.choice(['NS', 'KMM', 'NS2D', 'KMMRK3', 'KMM_RB']), 6)
        # all steps but one are short
        c['delays'] = []
        # in the last step nobody waits for the slowest rank
        at = rng.choice([5, 5, 5, rng.randrange(6), None])
        for r in range(8):
            a, b = rng.choice([0.0, 0.01, 0.03]), rng.choice([0.15, 0.5, 1.0])
            d = [a]*6
            d[rng.randrange(6) if at is None else at] = b
            c['delays'].append(d)
    elif kind == 'profile':
        c = flow(rng, solver, 3)
        if c['solver'] not in C.SOLVERS:
            c['integrator'] = rng.choice(['RK4', 'ForwardEuler', 'AB2'])
        c['delay'] = [rng.choice([0.005, 0.02, 0.04]) for _ in range(8)]
    else:
        c = flow(rng, 'NS', 1)
        c['mb'] = [[rng.choice([0, 17, 40, 90]) for _ in range(4)] for _ in range(4)]
    c['kind'] = kind
    c['timeout'] = 120
    return c


def run(check, rng):
    quick = check.tier == 'quick'
    n = 1 if quick else 20
    cases = []
    for s in ['NS', 'VV', 'MHD', 'NS2D', 'Bq2D']+list(C.SOLVERS):
        for _ in range(2*n):
            cases.append(make(rng, 'options', s))
        for _ in range(n):
            cases.append(make(rng, 'profile', s))
    for _ in range(8*n):
        cases.append(make(rng, 'timings'))
    for _ in range(3*n):
        cases.append(make(rng, 'memory'))
    check.run_serial(cases, flavour='lu')
    jobs = []
    for i in range(6*n):
        k = rng.choice([2, 3, 4])
        jobs.append((k, [make(rng, x) for x in ('options', 'timings', 'profile', 'memory', 'timings', 'profile')]))
    check.run_mpi(jobs, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C24', 'checks.c24', flavour='lu', rule=(
        'every solver with and without threads, planner effort, profile and verbosity, on 1-4 ranks; timings, profiles and memory '
        'reports against injected delays, counted calls and allocations. Non-trivial: every case'),
        assumptions=['a sleep does not end early; bounds are one-sided, so that load cannot violate them'])
    raise SystemExit(runner.main(ck, run))
