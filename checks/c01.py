"""C01: every right-hand side evaluated during a run is the one of the governing equations."""
import numpy as np

from vlib import periodic as P, runner, sdns

TOL = 1e-11


def run_case(case, rec):
    sim = P.setup(case)
    g = sim.grid
    P.quiet_file(sim)
    u0 = P.init_field(case, g)
    src = 0
    if case.get('source') and sim.name in ('NS', 'NS2D', 'VV'):
        rng = np.random.default_rng(case['init']['seed']+7)
        src = P.random_field(rng, g, u0.shape[0], True, mean=0.2, amp=0.5)
        P.put(sim, sim.context.Source, src)
    P.put(sim, sim.context.u, u0)
    real = sim.solver.ComputeRHS
    stop = case.get('calls', 40)
    nl = [0.0]

    def monitored(*a, **k):
        u = a[1]
        before = P.gather(sim, u)
        out = real(*a, **k)
        if rec.obs.get('rhs_evaluations', 0) >= stop:
            return out
        rec.count('rhs_evaluations')
        after = P.gather(sim, u)
        rec.check(np.array_equal(before, after), 'rhs-changes-state',
                  'evaluating the right-hand side changed the state it was given')
        scale0 = np.max(np.abs(before))
        nyq = np.max(np.abs(np.where(g.nonyq, 0, before)))
        if nyq > 1e-14*scale0 or not np.isfinite(scale0) or scale0 > 1e6:
            rec.count('outside_domain')
            return out
        want = P.ref_rhs(sim, before, src)
        lin = case['nu']*np.max(np.abs(g.K2*before))
        kmax = np.sqrt(np.max(g.K2))
        umax = np.max(np.abs(before).sum(axis=tuple(range(1, before.ndim))))
        scale = max(np.max(np.abs(want)), lin, 1e-3*umax**2*(kmax if sim.name != 'VV' else 1))
        nl[0] = max(nl[0], np.max(np.abs(P.ref_rhs(sim, before, 0)+case['nu']*g.K2*before)))
        got = P.gather(sim, out)
        if not case['mask_nyquist']:
            # what happens to Nyquist modes is not specified when they are not masked
            got, want = np.where(g.nonyq, got, 0), np.where(g.nonyq, want, 0)
        rec.close('right-hand side', got, want, TOL, scale=scale, sig='rhs:%s' % sim.name)
        rec.count('rhs_compared')
        return out

    sim.solver.ComputeRHS = monitored
    with np.errstate(all='ignore'):
        sim.sd.solve(sim.solver, sim.context)
    sim.solver.ComputeRHS = real
    rec.seen('config', [case['solver'], case['dealias'], case['convection'], case.get('integrator'),
                        case['mask_nyquist'], len(set(case['L'])) > 1])
    rec.seen('mesh', case['N'])
    rec.nontrivial = rec.obs.get('rhs_compared', 0) >= 1 and nl[0] > 1e-8
    rec.sample = dict(rhs_compared=rec.obs.get('rhs_compared', 0), nonlinear_term_max=nl[0])


def run(check, rng):
    cases = []
    n = 400 if check.tier == 'quick' else 6000
    # every solver/form/dealias combination once, then random ones
    combos = [(s, f, d) for s in P.FORMS for f in P.FORMS[s] for d in ('2/3-rule', '3/2-rule', 'None')]
    while len(cases) < n:
        c = P.random_case(rng, big=check.tier == 'thorough' and rng.random() < 0.2)
        if len(cases) < len(combos)*2:
            s, f, d = combos[len(cases) % len(combos)]
            if c['solver'] != s:
                continue
            c['convection'], c['dealias'] = f, d
            c['mask_nyquist'] = True
            if c['init']['kind'] == 'band':
                c['init']['kind'] = 'full'
        c['integrator'] = rng.choice(['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed'])
        kmax = max(np.pi*a/b for a, b in zip(c['N'], c['L']))
        c['dt'] = min(0.05, 0.1/(kmax*c['init']['amp']+c['nu']*kmax**2))
        c['T'] = c['dt']*rng.choice([1, 2, 3])
        c['source'] = rng.random() < 0.4
        cases.append(c)
    check.run_serial(cases)


if __name__ == '__main__':
    ck = runner.Check('C01', 'checks.c01', rule=(
        'random periodic configurations (solver, convection form, dealiasing, even and odd meshes, box sizes, '
        'viscosities, sources, integrators); every ComputeRHS call made by solve() is compared with an independent '
        'NumPy evaluation. Non-trivial: at least one call compared and the nonlinear term is larger than 1e-8'),
        assumptions=['states without Nyquist content (the monitor counts and leaves out the others)'])
    raise SystemExit(runner.main(ck, run))
