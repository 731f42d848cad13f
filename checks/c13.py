"""C13: channel solvers follow the independent reference trajectory."""
import numpy as np

from vlib import channel as C, chrun as H, runner


def tolerance(case):
    """Measured agreement between the Galerkin and the collocation discretisation, with margin."""
    if case['dealias'] == '3/2-rule' or (case['dealias'] == 'None' and case['convection'] == 'Vortex'):
        return 1e-8
    return 2e-6


def run_case(case, rec):
    sim = H.start(case)
    steps = int(case['T']/case['dt']+1e-9)
    ref = H.reference_run(sim, steps)
    n = [0]
    u0 = C.velocity(sim).copy()
    moved = [0.0]
    tol = tolerance(case)

    def update(c):
        u = C.velocity(sim).copy()
        want = C.physical(sim, sim.ch, ref[n[0]][0])
        n[0] += 1
        rec.count('steps')
        s = np.abs(u0).max()
        moved[0] = max(moved[0], np.abs(want-u0).max()/s)
        rec.close('velocity after step %d' % n[0], u, want, tol, scale=s,
                  sig='velocity-%s-%g' % ('RK3' if C.is_rk3(case['solver']) else 'AB2', tol))
        if C.is_rb(case['solver']):
            rec.close('temperature after step %d' % n[0], C.temperature(sim), C.physical(sim, sim.ch, ref[n[0]-1][1]),
                      tol, scale=1.0, sig='temperature')
    H.solve(sim, update)
    rec.check(n[0] == steps, 'steps', '%d steps instead of %d' % (n[0], steps))
    rec.seen('config', [case['solver'], case['convection'], case['dealias'], case['quad']])
    rec.nontrivial = moved[0] > 1e-3
    rec.sample = dict(steps=n[0], moved=moved[0], **rec.maxes)


def make_cases(rng, n, solvers):
    cases = []
    combos = [(s, f, d) for d in ('3/2-rule', '2/3-rule', 'None') for f in H.FORMS for s in solvers]
    for i in range(n):
        c = H.random_case(rng)
        c['solver'], c['convection'], c['dealias'] = combos[i % len(combos)]
        rb = C.is_rb(c['solver'])
        c.pop('kappa', None)
        if rb:
            c['kappa'] = rng.choice([0.05, 0.1, 0.3])
            c['force'] = 0.0
        # resolved: diffusion smooths within a step what Galerkin and collocation truncate differently
        c['nu'] = rng.choice([0.1, 0.2, 0.3])
        c['dt'] = rng.choice([0.05, 0.07, 0.1])
        c['N'] = [rng.choice([36, 40, 48]), rng.choice([8, 10]), rng.choice([8, 9])]
        if C.is_rk3(c['solver']):
            c['N'][0] = rng.choice([60, 64])    # thinner layers: the middle stage is short
        if c['dealias'] == 'None':
            c['N'][1:] = [12, 12]
        elif c['dealias'] == '2/3-rule':
            c['N'][1:] = [16, rng.choice([15, 16])]
        if rng.random() < 0.25:     # no Nyquist frequency to mask
            c['N'][1:] = [n+1-n % 2 for n in c['N'][1:]]
            c['mask_nyquist'] = rng.random() < 0.3
        c['T'] = c['dt']*(rng.choice([1, 2, 3])+0.3)
        cases.append(c)
    return cases


def run(check, rng):
    solvers = ('KMM', 'KMMr', 'KMMRK3', 'Coupled', 'CoupledRK3')
    check.run_serial(make_cases(rng, 120 if check.tier == 'quick' else 2400, solvers), flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C13', 'checks.c13', flavour='lu', rule=(
        'all channel solvers x forms x dealiasing cycled, with random resolved solenoidal no-slip fields, mean flows in both directions, '
        'pressure gradients, boxes, viscosities, both quadratures and an independent previous level; the velocity after every step is compared '
        'with an independent collocation code. Non-trivial: the velocity changes by more than 1e-3 of its size'),
        assumptions=['fields are resolved by both discretisations (wavenumber 1, degree <= 7 initially)'])
    raise SystemExit(runner.main(ck, run))
