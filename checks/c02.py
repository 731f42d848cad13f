"""C02: velocities and magnetic fields stay divergence free, real, and what the user gets is the state."""
import numpy as np

from vlib import periodic as P, runner

TOL = 1e-12


def run_case(case, rec):
    sim = P.setup(case)
    g = sim.grid
    P.quiet_file(sim)
    u0 = P.init_field(case, g)
    if case.get('source'):
        P.source(sim, u0)
    P.put(sim, sim.context.u, u0)
    kmax = np.sqrt(np.max(g.K2))
    c = sim.context
    moved = [0.0]

    def state(u, where):
        s = np.max(np.abs(u))
        if s == 0 or s > 1e6:
            rec.count('outside_domain')
            return False
        for i, what in ((0, 'vorticity' if sim.name == 'VV' else 'velocity'), (3, 'magnetic field')):
            if i == 0 or sim.name == 'MHD':
                v = u[i:i+g.d]
                rec.close('divergence of the %s %s' % (what, where), g.div(v), np.zeros(g.sshape), TOL,
                          scale=max(np.max(np.abs(v)), 1e-3*s)*kmax, sig='divergence')
        rec.close('Nyquist content %s' % where, np.where(g.nonyq, 0, u), 0*u, 1e-14, scale=s, sig='nyquist')
        rec.close('reality of the state %s' % where, g.fwd(g.bck(u)), u, TOL, scale=s, sig='reality')
        return True

    real = sim.solver.ComputeRHS

    def monitored(*a, **k):
        u = P.gather(sim, a[1])
        if state(u, 'at a stage'):
            rec.count('stages')
        return real(*a, **k)

    def update(context):
        u = P.gather(sim, c.u)
        if not state(u, 'after a step'):
            return
        rec.count('steps')
        moved[0] = max(moved[0], np.max(np.abs(u-u0))/np.max(np.abs(u0)))
        vh = P.velocity_hat(sim, u)
        U = P.user_velocity(sim)
        want = g.bck(vh)
        s = np.max(np.abs(want)) + 1e-300
        rec.close('velocity', U, want, TOL, scale=s, sig='velocity')
        # divergence of what the user gets, with the monitor's own derivatives
        Uh = g.fwd(U)
        rec.close('divergence of the physical velocity', g.bck(g.div(Uh)), np.zeros(g.N), 1e-11,
                  scale=s*kmax, sig='divergence')
        if hasattr(sim.solver, 'get_divergence'):
            d = P.gather(sim, sim.solver.get_divergence(**c), False)
            rec.close('get_divergence', d, np.zeros(g.N), 1e-11, scale=s*kmax, sig='get_divergence')

    sim.solver.ComputeRHS = monitored
    sim.solver.update = update
    with np.errstate(all='ignore'):
        sim.sd.solve(sim.solver, sim.context)
    rec.seen('config', [case['solver'], case['dealias'], case['convection'], case['integrator']])
    rec.seen('mesh', case['N'])
    rec.nontrivial = rec.obs.get('steps', 0) >= 1 and moved[0] > 1e-6
    rec.sample = dict(steps=rec.obs.get('steps', 0), stages=rec.obs.get('stages', 0), change=moved[0])


def run(check, rng):
    def make():
        c = P.random_case(rng, big=check.tier == 'thorough' and rng.random() < 0.2)
        c['mask_nyquist'] = True
        P.defaults(rng, c, steps=(2, 3, 5, 8))
        c['source'] = rng.random() < 0.3
        if c['integrator'] == 'BS5_adaptive':
            c['TOL'] = rng.choice([1e-3, 1e-5, 1e-7])
            c['T'] = c['dt']*rng.choice([3, 10])
            c['dt'] *= rng.choice([0.3, 1, 5])
        return c
    n = 350 if check.tier == 'quick' else 5000
    check.run_serial(P.combos(rng, make, P.ALL*2, n))


if __name__ == '__main__':
    ck = runner.Check('C02', 'checks.c02', rule=(
        'random periodic configurations and solenoidal fields, all integrators; every stage and step is checked for '
        'divergence, reality and Nyquist content, and every velocity returned to the user against the state. '
        'Non-trivial: at least one step in which the state changed by more than 1e-6'))
    raise SystemExit(runner.main(ck, run))
