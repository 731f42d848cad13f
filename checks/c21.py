"""C21: a run's result depends on its parameters and initial condition only."""
import copy
import json
import os
import subprocess
import sys

import numpy as np

from vlib import periodic as P, channel as C, chrun as H, env as E, runner, sdns

FILL = dict(t=0.0, tstep=0, precision='double', optimization='', mask_nyquist=True, decomposition='slab', write_result=10**8,
            checkpoint=10**8, filemode='w', make_profile=0, verbose=False)


# what can be asked of a solver between steps
GETTERS = dict(NS=('velocity', 'pressure', 'curl', 'divergence'), NS2D=('velocity', 'pressure', 'curl', 'divergence'), VV=('velocity', 'curl', 'divergence'),
               MHD=('divergence',), Bq2D=('velocity', 'divergence'), KMM=('velocity', 'divergence', 'pressure'))


def is_channel(case):
    return case['solver'] in C.SOLVERS


class Run(object):
    """One run through the public interface; start, advance to a time, read the state."""

    def __init__(self, case, observe=False, sim=None):
        self.case = case
        if is_channel(case):
            if sim is None:
                self.sim = C.setup(case, extra={'precision': 'double'})
            else:
                self.sim = copy.copy(sim)
                self.sim.context = sim.solver.get_context()
            s = self.sim
            s.ch = C.reference(case)
            s.init = H.initial(case, s.ch)
            C.initialize(s, s.ch, s.init[0], s.init[1], s.init[2])
            s.context.hdf5file = C.NoFile()
        else:
            if sim is None:
                self.sim = P.setup(case)
            else:
                self.sim = copy.copy(sim)
                self.sim.context = sim.solver.get_context()
            s = self.sim
            s.case = case
            P.quiet_file(s)
            u0 = P.init_field(case, s.grid)
            P.put(s, s.context.u, u0)
            if case.get('source'):
                P.source(s, u0)
        self.t, self.tstep = 0.0, 0
        self.observe = observe
        self.calls = 0

    def update(self, context):
        self.calls += 1
        if self.observe:
            sol = self.sim.solver
            for name in GETTERS.get(self.case['solver'], ('velocity', 'divergence')):
                if (self.case['solver'], name) == ('KMM', 'pressure'):
                    sol.get_pressure(context, sol)
                else:
                    getattr(sol, 'get_'+name)(**context)

    def advance(self, T, rec=None):
        s = self.sim
        p = s.params
        p.t, p.tstep, p.T = self.t, self.tstep, T
        s.solver.update = self.update
        before = {k: copy.deepcopy(v) for k, v in dict(p).items()}
        s.sd.solve(s.solver, s.context)
        if rec is not None:
            after = dict(p)
            for k in sorted(set(before) | set(after)):
                if k in ('t', 'tstep'):
                    continue
                same = k in before and k in after and np.array_equal(np.asarray(before[k]), np.asarray(after[k]))
                rec.count('parameters')
                rec.check(same, 'parameter', 'solve leaves %s = %r, it was %r' % (k, after.get(k), before.get(k)))
        self.t, self.tstep = float(p.t), int(p.tstep)

    def state(self):
        s = self.sim
        if is_channel(self.case):
            out = [np.array(C.velocity(s))]
            if C.is_rb(self.case['solver']):
                out.append(C.temperature(s))
            return out
        return [P.gather(s, s.context.u).copy()]


def fresh(case):
    sdns.KEEP = False
    r = Run(case)
    r.advance(case['T'])
    return r.state(), r.t, r.tstep


def tolerance(case):
    if case.get('precision') == 'single':
        return 1e-5
    if is_channel(case):
        return 1e-10
    return 1e-9 if case['integrator'] == 'BS5_adaptive' else 1e-12


def compare(rec, what, case, got, want, sig):
    rec.check(got[2] == want[2], sig+' steps', '%s: %d steps, alone %d' % (what, got[2], want[2]))
    rec.check(abs(got[1]-want[1]) <= 1e-12*max(1, abs(want[1])) or case.get('integrator') == 'BS5_adaptive', sig+' time', '%s: t = %r, alone %r' % (what, got[1], want[1]))
    for i, (a, b) in enumerate(zip(got[0], want[0])):
        rec.check(a.dtype == b.dtype, sig+' dtype', '%s: %s, alone %s' % (what, a.dtype, b.dtype))
        rec.close('%s: %s (%d)' % (what, case['solver'], i), a, b, tolerance(case), sig=sig)
    rec.count('compared_'+sig)


def history(case, rec):
    """A sequence of runs in one process against each run alone."""
    want = [fresh(r) for r in case['runs']]
    sdns.purge()
    try:
        for i, r in enumerate(case['runs']):
            sdns.KEEP = True
            run = Run(r, observe=case['observe'])
            if case['unused'] and i % 2:
                # contexts nobody uses
                run.sim.solver.get_context()
            run.advance(r['T'], rec)
            compare(rec, 'run %d of the process' % (i+1), r, (run.state(), run.t, run.tstep), want[i], 'history')
            rec.seen('after', [case['runs'][i-1]['solver'] if i else None, r['solver']])
    finally:
        sdns.KEEP = False
    rec.nontrivial = len(want) > 1


def contexts(case, rec):
    """Several contexts of one solver, advanced in turns, against each alone."""
    runs = [dict(case['run'], init=dict(case['run']['init'], seed=s)) for s in case['seeds']]
    want = [fresh(r) for r in runs]
    sdns.KEEP = False
    first = Run(runs[0])
    live = [first]+[Run(r, sim=first.sim) for r in runs[1:]]
    n, dt = case['steps'], case['run']['dt']
    for k, T in enumerate(case['stops']):
        for i in (range(len(live)) if k % 2 == 0 else reversed(range(len(live)))):
            live[i].advance(T, rec)
            rec.count('segments')
    for i, r in enumerate(live):
        compare(rec, 'context %d of %d in %d parts' % (i+1, len(live), len(case['stops'])), case['run'], (r.state(), r.t, r.tstep), want[i], 'contexts')
    rec.seen('contexts', [case['run']['solver'], case['run'].get('integrator'), len(live)])
    rec.nontrivial = len(case['stops']) > 1 or len(live) > 1


CHILD = r'''
import json, sys
import numpy as np
from checks import c21
case = json.load(open(sys.argv[1]))
s, t, n = c21.fresh(case)
np.savez(sys.argv[2], t=t, n=n, **{'s%d' % i: a for i, a in enumerate(s)})
'''


def process(case, rec):
    """The same run twice in this process and in new ones."""
    want = fresh(case['run'])
    compare(rec, 'again', case['run'], fresh(case['run']), want, 'repeat')
    d = os.environ.get('VERIF_SCRATCH', '.')
    fn, out = os.path.join(d, 'c21.json'), os.path.join(d, 'c21.npz')
    with open(fn, 'w') as f:
        json.dump(case['run'], f)
    ev = E.singleton(E.unmanaged(os.environ), d)
    ev['PYTHONHASHSEED'] = str(case['hashseed'])
    for k in range(3):
        p = subprocess.run([sys.executable, '-c', CHILD, fn, out], env=ev, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL, timeout=150)
        if p.returncode == 0 or 'MPI_Init' not in p.stdout and 'orte' not in p.stdout:
            break
    if rec.check(p.returncode == 0, 'process', 'the run fails in a new process: '+p.stdout[-600:]):
        with np.load(out) as z:
            got = ([z['s%d' % i] for i in range(len(want[0]))], float(z['t']), int(z['n']))
        compare(rec, 'in a new process', case['run'], got, want, 'process')
    rec.nontrivial = True


def run_case(case, rec):
    dict(history=history, contexts=contexts, process=process)[case['kind']](case, rec)
    rec.sample = dict(**rec.maxes)


# ---- cases ---------------------------------------------------------------------------------------------
def make_run(rng, solver=None, precision=True):
    """A small run with every parameter given (what an earlier run set stays set otherwise)."""
    solver = solver or rng.choice(list(P.DIM)+list(P.DIM)+list(C.SOLVERS))
    if solver in C.SOLVERS:
        c = H.random_case(rng, (solver,))
        c['N'] = [rng.choice([16, 20, 24]), rng.choice([6, 8]), rng.choice([6, 8])]
        c.setdefault('kappa', 0.1)
        c['T'] = c['dt']*(rng.choice([1, 2, 3])+0.3)
    else:
        c = P.defaults(rng, P.random_case(rng, (solver,)), steps=(1, 2, 3))
        c['T'] += 0.3*c['dt']
        c['source'] = rng.random() < 0.3 and solver in ('NS', 'NS2D', 'VV')
        c['TOL'] = 1e-6
        c.setdefault('eta', 0.02)
        c.setdefault('Ri', 0.1)
        c.setdefault('Pr', 1.0)
    for k, v in FILL.items():
        c.setdefault(k, v)
    if precision and solver not in C.SOLVERS and c['integrator'] != 'BS5_adaptive' and rng.random() < 0.15:
        c['precision'] = 'single'
    return c


def sibling(rng, r):
    """The same run but for one parameter."""
    other = make_run(rng, r['solver'])
    c = copy.deepcopy(r)
    keys = [k for k in sorted(set(r) & set(other)) if r[k] != other[k] and k not in ('T', 'TOL')]
    k = rng.choice(keys)
    c[k] = other[k]
    if not is_channel(c) and k != 'dt':
        # keep it stable, in the same number of steps
        n = c['T']/c['dt']
        c['dt'] = min(c['dt'], other['dt'])
        c['T'] = n*c['dt']
    elif k == 'dt':
        c['T'] = other['T']
    return c


def run(check, rng):
    quick = check.tier == 'quick'
    cases = []
    for i in range(40 if quick else 900):
        n = rng.choice([2, 3, 4, 5])
        runs = [make_run(rng)]
        while len(runs) < n:
            x = rng.random()
            if x < 0.2:
                runs.append(copy.deepcopy(rng.choice(runs)))        # the same again
            elif x < 0.65:
                runs.append(sibling(rng, rng.choice(runs)))
            elif x < 0.75:
                runs.append(make_run(rng, rng.choice(runs)['solver']))
            else:
                runs.append(make_run(rng))
        cases.append(dict(kind='history', runs=runs, observe=rng.random() < 0.4, unused=rng.random() < 0.4, timeout=300))
    solvers = list(P.DIM)+list(C.SOLVERS)
    for i in range(36 if quick else 700):
        r = make_run(rng, solvers[i % len(solvers)], precision=False)
        if not is_channel(r):
            r['integrator'] = rng.choice(['RK4', 'ForwardEuler', 'BS5_fixed'])
        n = rng.choice([2, 3, 4])
        r['T'] = r['dt']*(n+0.3)
        stops = sorted(set(rng.sample(range(1, n), rng.randrange(0, n))))+[n]
        cases.append(dict(kind='contexts', run=r, seeds=[rng.randrange(10**6) for _ in range(rng.choice([1, 2, 2, 3]))], steps=n,
                          stops=[r['dt']*s for s in stops[:-1]]+[r['T']], timeout=300))
    for i in range(12 if quick else 150):
        cases.append(dict(kind='process', run=make_run(rng, solvers[i % len(solvers)]), hashseed=rng.randrange(1, 1000), timeout=300))
    check.run_serial(cases, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C21', 'checks.c21', flavour='lu', rule=(
        'random sequences of runs in one process (all solvers, repeated solvers with one or all parameters changed, contexts nobody uses, getters called after '
        'every step) against each run alone in a newly imported package; several contexts of one solver advanced in turns and in parts; runs '
        'repeated in the same and in a new process. Non-trivial: a sequence of two, or two contexts or parts'),
        assumptions=['every run gives all of its parameters', 'several parts: integrators without memory beyond the context (not AB2, not adaptive)'])
    raise SystemExit(runner.main(ck, run))
