"""C04: fixed-step integrators advance the solution with their stated scheme."""
import numpy as np

from vlib import periodic as P, runner, schemes

TOL = 1e-11
ORDERS = schemes.self_test()


def run_case(case, rec):
    sim = P.setup(case)
    P.quiet_file(sim)
    g, c, params = sim.grid, sim.context, sim.params
    u0 = P.init_field(case, g)
    src = P.source(sim, u0) if case.get('source') else 0
    P.put(sim, c.u, u0)
    f = lambda u: P.ref_rhs(sim, u, src)
    log = []

    def update(context):
        log.append((float(params.t), int(params.tstep), P.gather(sim, c.u)))
        k = case.get('change_dt')
        if k and len(log) == k[0]:
            params.dt = case['dt']*k[1]
    sim.solver.update = update
    integ = case['integrator']
    t0 = case.get('t', 0.0)
    u = u0
    for run in range(case.get('solves', 1)):
        del log[:]
        if run:
            params.T = case['T']+run*(case['T']-case.get('t', 0.0))
            t0 = float(params.t)
            params.dt = case['dt']
        with np.errstate(all='ignore'):
            sim.sd.solve(sim.solver, c)
        rec.check(len(log) > 0, 'no step', 'no step was taken')
        f_old = dt_old = None
        for i, (t, n, new) in enumerate(log):
            dt = t-t0
            fu = f(u)
            s = dt*np.max(np.abs(fu))+1e-2*np.max(np.abs(u))
            if not s < 1e6:
                rec.count('outside_domain')
                break
            if s == 0:
                rec.count('zero_state')
                break
            what = '%s step %d of solve %d (tstep %d, dt=%.3g)' % (integ, i+1, run+1, n, dt)
            sig = 'scheme %s' % integ
            if integ == 'ForwardEuler':
                want = u+dt*fu
            elif integ == 'RK4':
                want = schemes.rk4(f, u, dt)
            elif integ == 'BS5_fixed':
                want = schemes.bs5(f, u, dt)[0]
            elif f_old is None:
                want = u+dt*fu
                sig += ' first'
            elif abs(dt-dt_old) <= 1e-9*dt_old:
                want = u+dt*(1.5*fu-0.5*f_old)
            else:
                # any consistent use of the previous right-hand side with the new step
                d = dt*(fu-f_old)
                dd = float(np.sum(np.abs(d)**2))
                th = float(np.sum((np.conj(d)*(new-u-dt*fu)).real)/dd) if dd > 0 else 0.0
                noise = 1e-10*s/max(1e-300, np.sqrt(dd))
                rec.check(-1e-6-noise <= th <= 0.5*max(1, dt/dt_old)+1e-6+noise, 'scheme AB2 changed step',
                          '%s after %.3g: weight of the previous right-hand side is %.3g' % (what, dt_old, th))
                want = u+dt*fu+th*d
                sig += ' changed step'
                rec.count('changed_steps')
            rec.close(what, new, want, TOL, scale=s, sig=sig)
            rec.count('steps')
            rec.count('steps_'+integ)
            rec.maximum('change', np.max(np.abs(new-u))/np.max(np.abs(u)))
            f_old, dt_old, u, t0 = fu, dt, new, t
    rec.seen('config', [case['solver'], integ, case.get('t', 0) != 0, case.get('tstep', 0) != 0,
                        case.get('solves', 1), 'change_dt' in case])
    rec.nontrivial = rec.obs.get('steps', 0) > 0 and rec.maxes.get('change', 0) > 1e-7
    rec.sample = dict(steps=rec.obs.get('steps', 0), times=[x[0] for x in log])


def run(check, rng):
    check.extra_cov['orders_of_the_models'] = ORDERS
    n = 320 if check.tier == 'quick' else 5000
    fixed = ['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed']

    def make(i):
        c = P.random_case(rng)
        c['mask_nyquist'] = True
        c['integrator'] = fixed[i % 4]
        c['dt'] = P.stable_dt(c, rng.choice([0.1, 0.3]))
        if rng.random() < 0.5:
            c['t'] = rng.choice([0.25, 1.0, 3.7])
            c['tstep'] = rng.choice([0, 1, 7, 100])
        elif rng.random() < 0.3:
            c['tstep'] = rng.choice([1, 5])
        k = rng.choice([1, 2, 3, 4, 2.5, 3.3, 1.7, 3.999])
        c['T'] = c.get('t', 0.0)+c['dt']*k
        c['source'] = rng.random() < 0.3
        if rng.random() < 0.3:
            c['solves'] = rng.choice([2, 3])
        elif rng.random() < 0.25 and k > 2:
            c['change_dt'] = [rng.choice([1, 2]), rng.choice([0.5, 0.3])]
        return c
    check.run_serial([make(i) for i in range(n)])


if __name__ == '__main__':
    ck = runner.Check('C04', 'checks.c04', rule=(
        'random periodic configurations, fixed-step integrators in turn, zero and nonzero start times and step numbers, '
        'end times that are and are not multiples of dt, repeated solves, step changes by the user; every step is recomputed '
        'from the recorded state before it with an executable model of the scheme. Non-trivial: a step that changed the state by more than 1e-7'),
        assumptions=['the models (vlib/schemes.py) have the stated order, which the check measures first'])
    raise SystemExit(runner.main(ck, run))
