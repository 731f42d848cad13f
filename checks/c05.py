"""C05: time bookkeeping and adaptive step control."""
import numpy as np

from vlib import periodic as P, channel as C, runner, schemes


def trace_spec(rec, log, t0, n0, dt0, T, adaptive, params, periodic, stopped=False):
    """Bookkeeping that holds for every solver: log = [(t, tstep, proposed dt)] at the update calls."""
    rec.check(len(log) > 0, 'no step', 'no step was taken although one fits before T')
    t, n, prop = t0, n0, dt0
    for i, (t1, n1, dt1) in enumerate(log):
        rec.count('steps')
        rec.check(n1 == n+1, 'tstep', 'step counter went from %d to %d' % (n, n1))
        rec.check(t1 > t, 'time', 'time went from %r to %r' % (t, t1))
        rec.check(t1 <= T+1e-11, 'past the end', 'time %r is past the end %r' % (t1, T))
        if not adaptive:
            want = prop if not periodic else min(dt0, T-t)
            rec.check(abs((t1-t)-want) <= 1e-12*max(1, abs(t1)), 'step size',
                      'step %d took %r instead of %r' % (i+1, t1-t, want))
        t, n = t1, n1
    rec.check(float(params.dt) == dt0, 'dt restored', 'dt is %r after the run, was %r' % (float(params.dt), dt0))
    rec.check(float(params.t) == t and int(params.tstep) == n, 'final time',
              'the run ended with t=%r, tstep=%r, the last step had %r, %r' % (params.t, params.tstep, t, n))
    if stopped:
        rec.count('stopped_early')
    elif periodic:
        rec.check(abs(t-T) <= 1e-11*max(1, abs(T)), 'end time', 'the run ended at %r instead of %r' % (t, T))
    else:
        steps = int(np.floor((T-t0)/dt0+1e-9))
        rec.check(len(log) == steps, 'number of steps', '%d steps instead of %d' % (len(log), steps))


def run_channel(case, rec):
    sim = C.setup(case)
    ch = C.reference(case)
    rng = np.random.default_rng(case['init']['seed'])
    uh, th = C.R.random_state(rng, ch, amp=0.1, thermal=C.is_rb(case['solver']))
    C.initialize(sim, ch, uh, th)
    sim.context.hdf5file = C.NoFile()
    log = []
    sim.solver.update = lambda c: log.append((float(sim.params.t), int(sim.params.tstep), float(sim.params.dt)))
    sim.sd.solve(sim.solver, sim.context)
    trace_spec(rec, log, case.get('t', 0.0), case.get('tstep', 0), case['dt'], case['T'], False, sim.params, False)
    rec.seen('config', [case['solver'], 'channel'])
    rec.nontrivial = len(log) > 0
    rec.sample = dict(times=[x[0] for x in log])


def follows(rec, what, dt, nxt, est, tol, hi, eps, vague=0.0):
    """The step that follows is the one the estimate calls for: 0.8 est^(-1/5), within the limits."""
    if not np.isfinite(est):
        lo = up = 0.01
    else:
        d = (2e-3+10*eps/dt)*est+1e-12/tol+vague      # rounding of the two evaluations of the estimate
        lo = min(hi, max(0.01, 0.8*(est+d)**-0.2))
        up = min(hi, max(0.01, 0.8*max(est-d, 1e-300)**-0.2))
        rec.count('proposals_inside_limits', 0.0101 < lo and up < 0.999*hi)
    rec.check(lo*dt*(1-1e-9)-eps <= nxt <= up*dt*(1+1e-9)+eps, 'step control',
              '%s: after dt=%r with error estimate %.6g comes %r, not %r times it' % (what, dt, est, nxt, lo))


def run_case(case, rec):
    if case['solver'] in C.SOLVERS:
        return run_channel(case, rec)
    adaptive = case['integrator'] == 'BS5_adaptive'
    log, rejects, states = [], {}, []

    def update(context):
        log.append((float(sim.params.t), int(sim.params.tstep), float(sim.params.dt)))
        states.append(P.gather(sim, sim.context.u))

    def extra(context):
        # the flag announces a rejection; it is the user's to reset
        if context.get('is_step_rejected_callback', False):
            context.is_step_rejected_callback = False
            rejects.setdefault(len(log), []).append(float(context.dt_rejected))
            rec.count('rejections')
        else:
            rec.count('start_of_step_callbacks')
    sim = P.setup(case, hooks=dict(additional_callback=extra))
    P.quiet_file(sim)
    u0 = P.init_field(case, sim.grid)
    src = P.source(sim, u0) if case.get('source') else 0
    P.put(sim, sim.context.u, u0)
    sim.solver.update = update
    cap = case.get('max_steps', 150)
    blown = 100*np.abs(u0).max()
    ends = sim.solver.end_of_tstep

    def end_of_tstep(context):
        # a solution that blows up needs steps below the resolution of the time
        return ends(context) or len(log) >= cap or not np.abs(states[-1]).max() < blown
    if adaptive:
        sim.solver.end_of_tstep = end_of_tstep
    with np.errstate(all='ignore'):
        sim.sd.solve(sim.solver, sim.context)
    t0, n0 = case.get('t', 0.0), case.get('tstep', 0)
    trace_spec(rec, log, t0, n0, case['dt'], case['T'], adaptive, sim.params, True,
               adaptive and (len(log) >= cap or not np.abs(states[-1]).max() < blown))
    rec.seen('config', [case['solver'], case['integrator'], t0 != 0, n0 != 0])
    rec.nontrivial = len(log) > 1
    rec.sample = dict(times=[x[0] for x in log][:10], rejected=rejects)
    if not adaptive:
        return
    # step control
    f = lambda u: P.ref_rhs(sim, u, src)
    tol = case['TOL']
    T = case['T']
    u, t, prop = u0, t0, case['dt']
    checked = 0
    for i, ((t1, n1, dt1), new) in enumerate(zip(log, states)):
        took = t1-t
        tries = rejects.get(i, [])+[took]
        eps = 4e-16*max(abs(t1), 1e-300)     # took is a difference of times
        first = min(prop, T-t) if i else prop
        rec.check(abs(tries[0]-first) <= 1e-12*first+eps+(1e-12 if i else 0), 'first attempt',
                  'step %d first tried %r instead of %r' % (i+1, tries[0], first))
        for a, b in zip(tries, tries[1:]):
            rec.check(b < a and b >= 0.00999*a-eps, 'retry', 'after the rejected step %r came %r' % (a, b))
        hi = 1.0 if len(tries) > 1 else 2.0
        rec.check(0.00999*took-eps <= dt1 <= hi*took*(1+1e-9)+2*eps, 'proposal',
                  'after a step of %r (%d rejections) the next is %r' % (took, len(tries)-1, dt1))
        if i < 12 or i > len(log)-4 or tries[1:]:
            with np.errstate(all='ignore'):
                for a, b in zip(tries[:-1], tries[1:]):
                    nw, err = schemes.bs5(f, u, a)
                    est = schemes.bs5_est(u, nw, err, tol)
                    if not 100 < est < np.inf and not blown < np.abs(nw).max() < np.inf:      # further out the estimate amplifies rounding
                        follows(rec, 'step %d retry' % (i+1), a, b, est, tol, 1.0, eps)
                    rec.check(not est < 1-1e-4, 'needless rejection',
                              'a step of %r with error estimate %.6g was rejected' % (a, est))
                nw, err = schemes.bs5(f, u, took)
                est = schemes.bs5_est(u, nw, err, tol)
                # what rounding errors of the start grow to in a step near the limit of stability
                rough = np.random.default_rng(i).standard_normal(u.shape)*np.abs(u).max()*1e-15
                nw2, err2 = schemes.bs5(f, u+rough, took)
                grown = np.max(np.abs(nw2-nw))
                vague = 100*abs(schemes.bs5_est(u, nw2, err2, tol)-est)
            s = took*np.max(np.abs(f(u)))*(1+1e10*eps/took)+1e-2*np.max(np.abs(u))+1e12*grown
            rec.close('accepted step %d (dt=%.4g, %d rejections)' % (i+1, took, len(tries)-1), new, nw,
                      1e-10, scale=s, sig='accepted step')
            rec.check(est <= 1+1e-4+vague, 'accepted error', 'step %d (dt=%r) with error estimate %.6g was accepted' % (i+1, took, est))
            rec.maximum('accepted_estimate', est)
            if np.abs(nw).max() < blown:
                follows(rec, 'step %d' % (i+1), took, dt1, est, tol, hi, 2*eps, vague)
            checked += 1
        u, t, prop = new, t1, dt1
    rec.count('accepted_steps_recomputed', checked)


def run(check, rng):
    n = 280 if check.tier == 'quick' else 4000
    cases = []
    for i in range(n):
        c = P.random_case(rng)
        c['N'] = [min(x, 10) if len(c['N']) == 3 else min(x, 16) for x in c['N']]
        c['mask_nyquist'] = True
        if c['nu'] > 0.01:
            c['nu'] = 0.01
        stable = P.stable_dt(c, 0.3)
        if rng.random() < 0.4:
            c['t'] = rng.choice([0.25, 1.0, 3.7])
        if rng.random() < 0.3:
            c['tstep'] = rng.choice([1, 7, 100])
        t0 = c.get('t', 0.0)
        if i % 3:
            c['integrator'] = 'BS5_adaptive'
            c['TOL'] = 10**rng.uniform(-7, -2)
            c['dt'] = stable*rng.choice([0.02, 0.3, 1, 5, 20, 60])
            c['T'] = t0+max(c['dt']*rng.choice([1, 1.3, 2]), stable*rng.choice([1, 5, 9.3]))
            c['source'] = rng.random() < 0.3
            if rng.random() < 0.06:      # overflows
                c['dt'] = stable*rng.choice([1e3, 1e6, 1e60])
                c['T'] = t0+c['dt']
                c['TOL'] = 1e-2
                c['N'] = [6]*len(c['N'])
                c['nu'] = 0.001
                c['init']['amp'] = 1.0
                c['source'] = False
                c['max_steps'] = 8
            if (c['T']-t0) > 40*stable and c['TOL'] < 1e-4:
                c['TOL'] = 1e-4
        else:
            c['integrator'] = rng.choice(['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed'])
            c['dt'] = stable*0.3
            k = rng.choice([1, 2, 3, 5, 8, 2.5, 3.3, 1.7, 3.999, 4.0001, 2.05, 3.95])
            c['T'] = t0+c['dt']*k
            if rng.random() < 0.3:
                c['dt'] = rng.choice([0.1, 0.01, 0.001])*(1 if stable > 0.03 else 0.1)
                c['T'] = round(t0+c['dt']*rng.choice([3, 7, 10]), 10)
        c['timeout'] = 300
        cases.append(c)
    check.run_serial(cases)
    ch = []
    for i in range(21 if check.tier == 'quick' else 100):
        t0 = rng.choice([0.0, 0.0, 1.0])
        dt = rng.choice([0.01, 0.02, 0.005])
        k = [1, 2, 3, 2.5, 6, 2.93, 4.07, 1.99, 3.999, 2.0001][(i+rng.randrange(2)*5) % 10]
        c = dict(solver=C.SOLVERS[i % len(C.SOLVERS)], N=[16, 6, 6], L=[6.0, 3.0], nu=0.01, dt=dt, t=t0,
                 T=t0+k*dt, init=dict(seed=rng.randrange(10**6)), kappa=0.01, tstep=rng.choice([0, 0, 5]))
        ch.append(c)
    check.run_serial(ch, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C05', 'checks.c05', rule=(
        'random periodic configurations; two thirds adaptive with tolerances 1e-7..1e-2 and initial steps from 0.02 to 1000 times '
        'a stable one, the others with fixed steps and end times on and off the grid; channel solvers. Every step event is checked '
        'against the trace specification, and accepted and rejected attempts are recomputed. Non-trivial: more than one step'),
        assumptions=['the error estimate is the largest over components of the rms of error/(TOL+TOL*|u|) (as documented in the code)'])
    raise SystemExit(runner.main(ck, run))
