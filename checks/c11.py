"""C11: the time loop calls the user back in the promised order, on the promised state."""
import numpy as np

from vlib import periodic as P, channel as C, chrun, runner, schemes


class Log(object):
    """What the user functions saw: (event, t, tstep, dt, state)."""

    def __init__(self, sim, state):
        self.sim, self.state, self.ev = sim, state, []

    def add(self, name, context=None, **more):
        s = self.sim
        self.ev.append(dict(ev=name, t=float(s.params.t), n=int(s.params.tstep), dt=float(s.params.dt),
                            u=self.state(s.context if context is None else context), **more))
        return self.ev[-1]


class File(object):
    """Stands in for the output file."""

    def __init__(self, log):
        self.log = log

    def update(self, *a, **k):
        self.log.add('file')

    def close(self):
        self.log.add('close')


def order(rec, case, log, given, stop):
    """The automaton: (update file end)* regression, close after the last file."""
    names = [e['ev'] for e in log.ev if e['ev'] != 'extra']
    per = [x for x in ('update', 'file', 'end') if x in given]
    i, steps = 0, 0
    while i < len(names) and per and names[i] == per[0]:
        got = names[i:i+len(per)]
        if not rec.check(got == per, 'order', 'step %d: calls came as %s, promised %s' % (steps+1, got, per)):
            return None
        i += len(per)
        steps += 1
    rest = names[i:]
    want = (['regression'] if 'regression' in given else [])
    rec.check([x for x in rest if x != 'close'] == want, 'end of run',
              'after the last of %d steps came %s' % (steps, rest))
    if 'file' in given:
        rec.check(rest.count('close') == 1 and names.count('close') == 1, 'close', 'files closed %d times, %s' % (names.count('close'), rest))
    rec.count('events', len(log.ev))
    rec.count('steps', steps)
    if stop is not None and 'end' in given:
        rec.check(steps <= stop, 'stop ignored', 'the end-of-step function asked to stop after step %d, the run took %d' % (stop, steps))
    return steps


def same_state(rec, log, modified):
    """Between update, file and end of one step the state is the same (but for what the user did)."""
    last = None
    for e in log.ev:
        if e['ev'] == 'extra':
            continue
        if e['ev'] == 'update' or last is None:
            last = e
            continue
        if e['ev'] == 'end':
            pass
        if last is not None and e['n'] == last['n']:
            if not modified:
                rec.check(np.array_equal(e['u'], last['u']), 'state changed',
                          'the state given to %s differs from that given to %s at step %d' % (e['ev'], last['ev'], e['n']))
            rec.check(e['t'] == last['t'], 'time changed', 'time differs between %s and %s' % (e['ev'], last['ev']))
        elif e['ev'] in ('regression', 'close'):
            rec.check(e['n'] == last['n'], 'final step', '%s was called at step %d, the last step was %d' % (e['ev'], e['n'], last['n']))
        last = e


def clock(rec, case, log, given):
    """Each step is seen once, with time and step number advanced."""
    key = [x for x in ('update', 'file', 'end') if x in given]
    if not key:
        return
    t, n = case.get('t', 0.0), case.get('tstep', 0)
    for e in log.ev:
        if e['ev'] == key[0]:
            rec.check(e['n'] == n+1, 'tstep', '%s saw step number %d after %d' % (key[0], e['n'], n))
            rec.check(e['t'] > t, 'time', '%s saw time %r after %r' % (key[0], e['t'], t))
            t, n = e['t'], e['n']
        elif e['ev'] == 'extra':
            rec.check(e['n'] == n and e['t'] == t, 'extra clock', 'the extra callback saw step %d, time %r inside the step after %d, %r' % (e['n'], e['t'], n, t))


def hooks_of(case, log_of, sim_of, act):
    given = case['given']
    h = {}
    if 'update' in given:
        def update(context):
            log_of().add('update', context)
            act(context)
        h['update'] = update
    if 'regression' in given:
        def regression(context):
            log_of().add('regression', context)
        h['regression_test'] = regression
    if 'extra' in given:
        def extra(context):
            rej = bool(context.get('is_step_rejected_callback', False))
            context.is_step_rejected_callback = False
            log_of().add('extra', context, rejected=rej, fu0=np.array(P.gather(sim_of(), context.fu0)))
        h['additional_callback'] = extra
    return h


def wrap_end(case, sim, log):
    if 'end' not in case['given']:
        return
    orig = sim.solver.end_of_tstep
    first = case.get('tstep', 0)

    def end(context):
        r = orig(context)
        log.add('end', context)
        if case.get('stop') is not None and int(sim.params.tstep) >= first+case['stop']:
            return case.get('stop_value', True)
        return r
    sim.solver.end_of_tstep = end


def run_channel(case, rec):
    box = {}

    def start(hooks):
        sim = chrun.start(case, hooks)
        return sim

    def state(c):
        return np.concatenate([np.array(x).ravel() for x in c.u]) if isinstance(c.u, tuple) else np.array(c.u).ravel()
    sim = box['sim'] = start(hooks_of(case, lambda: box['log'], lambda: box['sim'], lambda c: None))
    log = box['log'] = Log(sim, state)
    if 'file' in case['given']:
        sim.context.hdf5file = File(log)
    else:
        sim.context.hdf5file = C.NoFile()
    wrap_end(case, sim, log)
    sim.sd.solve(sim.solver, sim.context)
    steps = order(rec, case, log, case['given'], case.get('stop'))
    same_state(rec, log, False)
    clock(rec, case, log, case['given'])
    rec.seen('config', [case['solver'], sorted(case['given']), case.get('stop')])
    rec.nontrivial = bool(steps) or not case['given']
    final = state(sim.context)
    # the same run without any user function
    bare = chrun.start(case)
    bare.context.hdf5file = C.NoFile()
    if case.get('stop') is not None and 'end' in case['given']:
        bare.params.T = bare.params.t+case['stop']*case['dt']
    bare.sd.solve(bare.solver, bare.context)
    rec.close('state after a run with user functions %s' % case['given'], final, state(bare.context), 1e-9, sig='user functions disturb')


def run_case(case, rec):
    if case['solver'] in C.SOLVERS:
        return run_channel(case, rec)
    box = {}
    first = case.get('tstep', 0)
    changes = {int(k): v for k, v in case.get('changes', {}).items()}
    touched = {}

    def act(context):
        n = int(box['sim'].params.tstep)-first
        ch = changes.get(n)
        if not ch:
            return
        sim = box['sim']
        if ch[0] == 'dt':
            sim.params.dt = ch[1]
        elif ch[0] == 'scale':
            context.u[...] *= ch[1]
        elif ch[0] == 'source':
            context.Source[...] *= ch[1]
            box['src'] = box['src']*ch[1]
        elif ch[0] == 'nu':
            sim.params.nu = ch[1]
            sim.case = dict(sim.case, nu=ch[1])
        touched[n] = dict(u=P.gather(sim, context.u), src=box['src'], nu=float(sim.params.nu), dt=float(sim.params.dt))
        rec.count('user_changes')

    sim = box['sim'] = P.setup(case, hooks=hooks_of(case, lambda: box['log'], lambda: box['sim'], act))
    log = box['log'] = Log(sim, lambda c: np.array(P.gather(sim, c.u)))
    if 'file' in case['given']:
        sim.context.hdf5file = File(log)
    else:
        P.quiet_file(sim)
    u0 = P.init_field(case, sim.grid)
    box['src'] = P.source(sim, u0) if case.get('source') else 0
    src = box['src']
    P.put(sim, sim.context.u, u0)
    wrap_end(case, sim, log)
    sim.sd.solve(sim.solver, sim.context)
    final = P.gather(sim, sim.context.u)
    given = case['given']
    steps = order(rec, case, log, given, case.get('stop'))
    if steps is None:
        return
    same_state(rec, log, bool(changes))
    clock(rec, case, log, given)
    rec.seen('config', [case['solver'], case['integrator'], sorted(given), case.get('stop'), sorted(str(v[0]) for v in changes.values())])
    rec.nontrivial = bool(steps) or not [g for g in given if g in ('update', 'file', 'end')]
    rec.sample = dict(events=[(e['ev'], round(e['t'], 6), e['n']) for e in log.ev[:12]])
    # the trajectory the user was shown, and what the changes of the user did to it
    adaptive = case['integrator'] == 'BS5_adaptive'
    key = [x for x in ('update', 'file', 'end') if x in given]
    u, t, n, fprev = u0, case.get('t', 0.0), first, None
    T, dt = case['T'], case['dt']
    nu = case['nu']
    if key:
        stops = [(e['t'], e['n'], e['u']) for e in log.ev if e['ev'] == key[0]]
    elif adaptive:
        stops = []
    else:
        stops, a = [], t
        if case['integrator'] == 'AB2' and abs((T-t)/dt-round((T-t)/dt)) > 1e-6:
            return
        while a+min(dt, T-a) <= T+1e-12 and T-a > 1e-12 and len(stops) < 1000:
            a += min(dt, T-a)
            stops.append((a, None, None))
    extras = [e for e in log.ev if e['ev'] == 'extra']
    for i, (t1, n1, shown) in enumerate(stops):
        took = t1-t
        sim.case = dict(case, nu=nu)
        f = lambda v: P.ref_rhs(sim, v, src)
        if not adaptive and key:
            want = min(dt, T-t)
            rec.check(abs(took-want) <= 1e-12*max(1, abs(t1)), 'step size', 'step %d took %r instead of %r' % (i+1, took, want))
        fu = f(u)
        size = abs(took)*np.abs(fu).max()+np.abs(u).max()
        if case['integrator'] == 'RK4':
            new = schemes.rk4(f, u, took)
        elif case['integrator'] == 'ForwardEuler':
            new = u+took*fu
        elif case['integrator'] == 'AB2':
            new = u+took*fu if i == 0 else u+took*(1.5*fu-0.5*fprev)
            if i and abs(took-took_prev) > 1e-9*took and shown is not None:
                new = np.array(shown)       # C04 decides what a changed step may do
        else:
            new = schemes.bs5(f, u, took)[0]
        mine = [e for e in extras if e['n'] == n]
        if case['integrator'].startswith('BS5') and 'extra' in given:
            rec.check(len(mine) > 0, 'extra missing', 'no extra callback in step %d' % (i+1))
        for e in mine:
            rec.count('extra_callbacks')
            if e['rejected']:
                rec.count('rejections')
            rec.close('state in the extra callback of step %d' % (i+1), e['u'], u, 1e-10, scale=np.abs(u).max(), sig='extra state')
            rec.close('fu0 in the extra callback of step %d' % (i+1), e['fu0'], fu, 1e-9, scale=np.abs(fu).max()+np.abs(u).max()*1e-3, sig='extra rhs')
        if shown is not None:
            rec.close('state shown to %s at step %d' % (key[0], i+1), shown, new, 1e-10, scale=size, sig='state shown')
            u = np.array(shown)
        else:
            u = new
        fprev, t, n, took_prev = fu, t1, n1, took
        if i+1 in touched and 'update' in given:
            u, src, nu, dt = (touched[i+1][k] for k in ('u', 'src', 'nu', 'dt'))
    if stops:
        rec.close('final state', final, u, 1e-10, scale=np.abs(u).max()+1e-3, sig='final state')
    if not case.get('stop') and not (key and not stops):
        rec.check(abs(t-T) <= 1e-11*max(1, abs(T)) or (adaptive and not key), 'end time', 'run ended at %r instead of %r' % (t, T))


GIVEN = ('update', 'regression', 'extra', 'file', 'end')


def run(check, rng):
    n = 200 if check.tier == 'quick' else 3000
    cases = []
    for i in range(n):
        c = P.random_case(rng)
        c['N'] = [min(x, 10) if len(c['N']) == 3 else min(x, 16) for x in c['N']]
        c['mask_nyquist'] = True
        if c['nu'] > 0.01:
            c['nu'] = 0.01
        c['integrator'] = rng.choice(P.INTEGRATORS)
        stable = P.stable_dt(c, 0.2)
        c['dt'] = stable*0.5
        if rng.random() < 0.4:
            c['t'] = rng.choice([0.25, 1.0, 3.7])
        if rng.random() < 0.4:
            c['tstep'] = rng.choice([1, 7, 100])
        k = rng.choice([2, 3, 4, 5, 5.4, 3.7, 6])
        c['T'] = c.get('t', 0.0)+c['dt']*k
        if c['integrator'] == 'BS5_adaptive':
            c['TOL'] = 10**rng.uniform(-7, -4)
            c['T'] = c.get('t', 0.0)+stable*rng.choice([3, 6])
            if rng.random() < 0.5:
                c['dt'] = stable*rng.choice([10, 30])
                c['T'] = c.get('t', 0.0)+c['dt']
                c['TOL'] = max(c['TOL'], 1e-5)
        r = rng.random()
        if r < 0.5:
            c['given'] = list(GIVEN)
        elif r < 0.9:
            c['given'] = [g for g in GIVEN if rng.random() < 0.5]
        else:
            c['given'] = []
        c['source'] = c['solver'] in ('NS', 'NS2D', 'VV') and rng.random() < 0.4
        if 'end' in c['given'] and rng.random() < 0.3:
            c['stop'] = rng.choice([1, 2, 3])
            c['stop_value'] = rng.choice([True, 1, 'yes'])
        if 'update' in c['given'] and rng.random() < 0.6:
            kinds = ['dt', 'nu']
            if c['integrator'] in ('RK4', 'ForwardEuler', 'AB2'):
                kinds += ['scale', 'scale']
                if c['source']:
                    kinds += ['source', 'source']
            if c['integrator'] in ('BS5_fixed', 'BS5_adaptive'):
                kinds = ['dt']
            ch = {}
            for s in rng.sample([1, 2, 3], rng.choice([1, 2])):
                kd = rng.choice(kinds)
                ch[str(s)] = [kd, dict(dt=c['dt']*rng.choice([0.5, 0.7, 1.5]), nu=c['nu']*2+0.002, scale=rng.choice([0.5, 1.2]),
                                       source=rng.choice([0.0, 2.0]))[kd]]
            c['changes'] = ch
        if rng.random() < 0.04 and 'changes' not in c:
            c['T'] = c.get('t', 0.0)        # nothing to do
            c.pop('stop', None)
            c['integrator'] = 'RK4'
            c.pop('TOL', None)
        cases.append(c)
    check.run_serial(cases)
    ch = []
    for i in range(14 if check.tier == 'quick' else 150):
        c = chrun.random_case(rng, solvers=[C.SOLVERS[i % len(C.SOLVERS)]])
        c['N'] = [24, 6, 6]
        c['T'] = c['dt']*rng.choice([2.3, 3.3, 4.3])
        c['given'] = list(GIVEN) if rng.random() < 0.6 else [g for g in GIVEN if rng.random() < 0.5]
        if 'extra' in c['given']:
            c['given'].remove('extra')
        if 'end' in c['given'] and rng.random() < 0.4:
            c['stop'] = rng.choice([1, 2])
        ch.append(c)
    check.run_serial(ch, flavour='lu')
    mp = []
    for c in cases[:80]:
        if len(c['given']) == len(GIVEN) and all(x % 2 == 0 for x in c['N']) and c['T'] > c.get('t', 0):
            mp.append(dict(c, np=2))
    check.run_mpi([(2, mp[:8])])


if __name__ == '__main__':
    ck = runner.Check('C11', 'checks.c11', rule=(
        'random periodic configurations with random sets of user functions (half with all of them), early stops with true values of '
        'several kinds, changes of step size, viscosity, solution and source by the user; channel solvers; two processes. The call log is '
        'run through the automaton and every state shown is recomputed from the one before. Non-trivial: a step was taken'),
        assumptions=['solution and source are changed by the user only under RK4, ForwardEuler and AB2 (BS5 reuses its last stage)'])
    raise SystemExit(runner.main(ck, run))
