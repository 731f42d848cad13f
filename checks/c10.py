"""C10: what is written, when, and what a kill file does."""
import os
import shutil
import tempfile

import numpy as np

from vlib import channel as C, chrun as H, history as Hi, periodic as P, sdns, runner


def run_case(case, rec):
    d = tempfile.mkdtemp(prefix='h-', dir=os.getcwd())
    try:
        history(case, rec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def history(case, rec, d):
    f = case['files']
    tag = '%s on %d' % (case['run']['solver'], case['ranks'])
    if case['kill'] == 'before':
        with open(os.path.join(d, 'killspectraldns'), 'w') as g:
            g.write('')
    spec = dict(case=case['run'], T=case['T'], files=f, kill=case['kill'] if isinstance(case['kill'], dict) else None)
    p = Hi.run(spec, case['ranks'], d)
    with sdns.Quiet():
        ref = Hi.here(dict(case=case['run'], T=case['T'], files=None), d)
    first = case['run'].get('tstep', 0)
    last = max(ref)
    if case['kill']:
        last = first+1 if case['kill'] == 'before' else min(last, case['kill']['step'])
    fired = case['kill'] == 'before' or (case['kill'] and case['kill']['step'] <= max(ref))
    rec.seen('config', [case['run']['solver'], case['ranks'], f['write_result'], f['checkpoint'], bool(fired), f['filemode']])
    rec.check(p.status == (1 if fired else 0), 'exit status', '%s: exit status %r%s' % (tag, p.status, ' with a kill file' if fired else ''),
              log=p.out[-2500:])
    rec.check(not p.kill_file, 'kill file', '%s: the kill file is still there' % tag)
    rec.check(sorted(p.steps) == list(range(first, last+1)), 'steps', '%s: steps %r, expected %d..%d' % (tag, sorted(p.steps), first, last))
    if fired:
        rec.count('kills')
    # writing does not change the solution
    if 'adaptive' not in case['run'].get('integrator', ''):
        Hi.same(rec, tag+' with output', p.steps, ref, case['tol'], 'solution changed by output')
    w = [n for n in range(first+1, last+1) if n % f['write_result'] == 0]
    Hi.results(rec, tag, Hi.read(os.path.join(d, 'out_w.h5')), p.steps, w, 'result')
    c = [n for n in range(first+1, last+1) if n % f['checkpoint'] == 0 or (fired and n == last)]
    data = Hi.read(os.path.join(d, 'out_c.h5'))
    if c:
        Hi.checkpoint(rec, tag, data, p.steps, c[-1], 'checkpoint')
    else:
        rec.check(data is None or not data['data'], 'checkpoint', '%s: a checkpoint at a step that is no multiple of %d' % (tag, f['checkpoint']))
    rec.nontrivial = len(p.steps) > 1 and (bool(w) or bool(c))
    rec.sample = dict(steps=sorted(p.steps), results=w, checkpoints=c, status=p.status)


def make(rng, i):
    if i % 5 < 3:
        c = P.random_case(rng, solvers=[('NS', 'NS2D', 'VV', 'MHD', 'Bq2D')[i//5*3 % 5 if i % 5 == 0 else (i//5*3+i % 5) % 5]])
        c['mask_nyquist'] = True
        c['integrator'] = rng.choice(list(P.INTEGRATORS))
        c['dt'] = P.stable_dt(c, 0.2)
        if c['integrator'] == 'BS5_adaptive':
            c['TOL'] = 1e-3
        if rng.random() < 0.2:
            c['precision'] = 'single'
        tol = 1e-11 if 'precision' not in c else 1e-4
        if rng.random() < 0.3:
            c['t'], c['tstep'] = 0.5, rng.choice([3, 10])
        nmax = [2, 3, 4]
        c['source'] = rng.random() < 0.3
        if 'precision' in c and c['integrator'] == 'BS5_adaptive':
            c['TOL'] = 1e-2
    else:
        c = H.random_case(rng, solvers=[C.SOLVERS[(2*(i//5)+i % 5-3) % 7]])
        c['N'] = [16, rng.choice([6, 8]), rng.choice([6, 8])]
        tol = 1e-10
        nmax = [2, 3]
    steps = rng.choice([3, 5, 7, 8])
    T = c.get('t', 0.0)+c['dt']*(steps+(0.4 if i % 5 >= 3 else 0))
    first = c.get('tstep', 0)
    kill = None
    r = rng.random()
    if r < 0.4:
        kill = dict(step=first+rng.randint(1, steps), rank=rng.randrange(4))
    elif r < 0.5:
        kill = 'before'
    if c.get('integrator') == 'BS5_adaptive' and isinstance(kill, dict):
        kill['step'] = first+1
    n = 1 if rng.random() < 0.6 else rng.choice(nmax)
    w = rng.choice([1, 2, 3, 4, 5, 100])
    if i < 20:
        # every solver is seen writing several results in one run
        kill, w = None, rng.choice([1, 2])
    return dict(run=c, T=T, kill=kill, ranks=n, tol=tol, timeout=120,
                files=dict(write_result=w, checkpoint=rng.choice([1, 2, 3, 5, 100]),
                           h5filename='out', filemode=rng.choice(['w', 'a'])))


def run(check, rng):
    n = 60 if check.tier == 'quick' else 600
    check.run_serial([make(rng, i) for i in range(n)], flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C10', 'checks.c10', flavour='lu', rule=(
        'histories of all solvers on 1-4 processes with random output and checkpoint intervals, start steps, file modes and kill files (before the run, '
        'or appearing at a random step on a random rank); the files are compared with the steps recorded by the monitor, and the solution with that of '
        'the run without output. Non-trivial: at least one step and one result or checkpoint'))
    raise SystemExit(runner.main(ck, run))
