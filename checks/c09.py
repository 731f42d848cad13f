"""C09: histories of runs that are stopped, killed or crash, and are continued from their checkpoint."""
import os
import shutil
import tempfile

from checks import c10
from vlib import channel as C, history as Hi, sdns, runner


def run_case(case, rec):
    d = tempfile.mkdtemp(prefix='h-', dir=os.getcwd())
    try:
        history(case, rec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one_step(run):
    """Schemes that a restart continues without loss."""
    return run['solver'] in C.SOLVERS or run['integrator'] in ('RK4', 'ForwardEuler', 'BS5_fixed')


def history(case, rec, d):
    run, ck, wr = case['run'], case['checkpoint'], case['write_result']
    with sdns.Quiet():
        ref = Hi.here(dict(case=run, T=case['T'], files=None), d)
    names, restart = [], None
    have = {}           # file name -> (results present, recorded steps, step of its checkpoint)
    at = 0              # step the next phase starts from
    recorded = {}
    for n, ph in enumerate(case['phases']):
        tag = '%s, run %d of the history (%d processes)' % (run['solver'], n+1, ph['ranks'])
        name = ph['file']
        spec = dict(case=run, T=ph['T'], restart=restart, files=dict(write_result=wr, checkpoint=ck, h5filename=name, filemode=ph['mode']),
                    kill=ph.get('kill'), crash=ph.get('crash'))
        p = Hi.run(spec, ph['ranks'], d)
        want = 1 if ph.get('kill') else 0
        if ph.get('crash'):
            rec.check(p.status != 0 and p.status != 'hang', 'exit status', '%s: status %r after SIGKILL' % (tag, p.status), log=p.out[-2000:])
        elif not rec.check(p.status == want, 'exit status', '%s: exit status %r, expected %d' % (tag, p.status, want), log=p.out[-2500:]):
            return
        rec.count('runs')
        last = max(p.steps) if p.steps else at
        stop = (ph.get('kill') or ph.get('crash') or {}).get('step')
        if stop is not None:
            rec.check(last == stop, 'steps', '%s: last step %d, expected %d' % (tag, last, stop))
        if restart:
            rec.count('restarts')
            rec.check(min(p.steps) == at, 'restart', '%s: starts at step %d, checkpoint was of step %d' % (tag, min(p.steps), at))
            for k, v in p.steps[at].items():
                if k.startswith('c:'):
                    w = recorded[at][k]
                    rec.check((v == w).all(), 'restart state', '%s: %s after the restart is not the state of step %d' % (tag, k[2:], at))
        # trajectory of the uninterrupted run
        if one_step(run) or not restart:
            if Hi.same(rec, tag, p.steps, ref, case['tol'], 'trajectory', first=at):
                rec.nontrivial = rec.nontrivial or bool(restart)
        # what is on disk now
        written = [s for s in range(at+1, last+1) if s % ck == 0 or (ph.get('kill') and s == stop)]
        if ph.get('crash') and ph['crash']['when'] == 'update':
            written = [s for s in written if s != stop]
        shown = [s for s in range(at+1, last+1) if s % wr == 0]
        if ph.get('crash') and ph['crash']['when'] == 'update':
            shown = [s for s in shown if s != stop]
        old = have.get(name, (set(), {}, 0)) if ph['mode'] == 'a' else (set(), {}, 0)
        steps = dict(old[1])
        for s, v in p.steps.items():
            if s == min(p.steps) and s in steps:
                continue        # the loaded state, before any evaluation
            if s in shown or s in written or s-1 in written or s+1 in written or s not in steps:
                steps[s] = v
        cstep = written[-1] if written else old[2]
        have[name] = (old[0] | set(shown), steps, cstep)
        touched = bool(p.steps) and last > at
        if touched:
            data = Hi.read(os.path.join(d, name+'_c.h5'))
            if not crash_before_first(ph, at, last):
                Hi.checkpoint(rec, tag, data, steps, cstep, 'checkpoint')
                Hi.results(rec, tag, Hi.read(os.path.join(d, name+'_w.h5')), steps, sorted(have[name][0]), 'result', tol=1e-10)
        recorded.update(p.steps)
        if written:
            at, restart = written[-1], os.path.join(d, name+'_c.h5')
            recorded[at] = p.steps[at]
        elif name == ph['file'] and ph['mode'] == 'w' and restart and os.path.basename(restart) == name+'_c.h5':
            return      # the user overwrote the only checkpoint
        if n+1 < len(case['phases']) and restart is None:
            return
    rec.seen('history', [run['solver'], run.get('integrator'), [(x['ranks'], x['mode'], bool(x.get('kill')), (x.get('crash') or {}).get('when')) for x in case['phases']]])
    rec.sample = dict(phases=len(case['phases']), restarts=rec.obs.get('restarts', 0))


def crash_before_first(ph, at, last):
    """Killed in the update of the first step: no file of this run yet."""
    return bool(ph.get('crash')) and ph['crash']['when'] == 'update' and last == at+1


def make(rng, i):
    c = c10.make(rng, i)
    run = c['run']
    for k in ('t', 'tstep'):
        run.pop(k, None)
    if run.get('integrator') == 'BS5_adaptive':
        run['integrator'] = rng.choice(['RK4', 'BS5_fixed'])
        run.pop('TOL', None)
    dt = run['dt']
    steps = rng.choice([6, 8, 9])
    extra = 0.4 if run['solver'] in C.SOLVERS else 0.0
    T = dt*(steps+extra)
    ck = rng.choice([1, 2, 3, 4])
    nmax = [1, 1, 1, 2, 3, 4] if run['solver'] not in C.SOLVERS else [1, 1, 1, 2, 3]
    phases = []
    at, now = 0, 0
    for n in range(rng.choice([2, 2, 3])):
        ph = dict(ranks=rng.choice(nmax), T=T, mode='w' if n == 0 else rng.choice(['a', 'a', 'w']),
                  file='out' if n == 0 or rng.random() < 0.7 else 'more')
        if ph['file'] == 'more':
            ph['mode'] = 'w'
        phases.append(ph)
        lo = at+1
        if n and lo >= steps:
            break
        kind = rng.choice(['kill', 'crash', 'end', 'stop'] if n == 0 else ['kill', 'crash', 'end'])
        k = rng.randint(max(lo, min(at+ck, steps-1)), steps-1) if lo <= steps-1 else None
        if k is None or kind == 'end' and n:
            break
        if kind == 'kill':
            ph['kill'] = dict(step=k, rank=rng.randrange(4))
            at = k
        elif kind == 'crash':
            ph['crash'] = dict(step=k, when=rng.choice(['update', 'end']))
            at = (k-1 if ph['crash']['when'] == 'update' else k)//ck*ck or at
        else:
            k = max(k//ck*ck, ck)
            ph['T'] = dt*(k+extra)
            at = k//ck*ck
    return dict(run=run, T=T, phases=phases, checkpoint=ck, write_result=rng.choice([1, 2, 3, 100]), tol=c['tol'] if c['tol'] > 1e-6 else max(c['tol'], 1e-9),
                timeout=200)


def run(check, rng):
    n = 30 if check.tier == 'quick' else 500
    check.run_serial([make(rng, i) for i in range(n)], flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C09', 'checks.c09', flavour='lu', rule=(
        'histories of two or three runs of any solver, on 1-4 processes each, stopped by the end time, by a kill file or by SIGKILL of all processes between '
        'two writes, continued in new processes from the checkpoint; checkpoint files compared bit by bit with the recorded states, restarted trajectories '
        'with the uninterrupted run. Non-trivial: a restarted run took a step that was compared'),
        assumptions=['a crash while HDF5 is writing is out of scope (the checkpoint is overwritten in place)'])
    raise SystemExit(runner.main(ck, run))
