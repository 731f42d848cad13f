"""C14: Rayleigh-Benard solvers: temperature transport, wall temperatures, buoyancy."""
import numpy as np

from vlib import channel as C, chrun as H, runner
from checks import c13


def profile_at(W, th):
    m = th.mean(axis=(1, 2))
    return W.top@m, W.bot@m


def monitor_walls(sim, W, rec, label):
    th = C.temperature(sim)
    for v, want, nm in ((W.top, 0.0, '+1'), (W.bot, 1.0, '-1')):
        wall = np.tensordot(v, th, (0, 0))
        rec.close('%s: temperature at x=%s' % (label, nm), wall, np.full(wall.shape, want), 1e-10, scale=1.0,
                  sig='wall temperature')
    return th


def run_conduction(case, rec):
    """No motion, temperature a function of x: pure diffusion towards the conductive profile."""
    sim = C.setup(case)
    ch = C.reference(case)
    rng = np.random.default_rng(case['init']['seed'])
    uh = np.zeros((3, len(ch.x))+ch.k2.shape, complex)
    th = np.zeros(uh.shape[1:], complex)
    lin = 0.5*(1-ch.x)
    amp = case['init']['amp']
    # slowest modes of the heat equation, with their exact decay under Crank-Nicolson
    th[:, 0, 0] = lin+amp*(1-ch.x**2)*(1+rng.uniform(-.5, .5)*ch.x)
    C.initialize(sim, ch, uh, th)
    W = H.Walls(sim)
    dist = [np.abs(C.temperature(sim)-0.5*(1-C.points(sim))[:, None, None]).max()]
    n = [0]

    def update(c):
        n[0] += 1
        u = C.velocity(sim)
        rec.check(np.abs(u).max() < 1e-11, 'motion', 'step %d: velocity %.2e appears in a stratification that depends on x only'
                  % (n[0], np.abs(u).max()))
        t = monitor_walls(sim, W, rec, 'step %d' % n[0])
        d = np.abs(t-0.5*(1-C.points(sim))[:, None, None]).max()
        dist.append(d)
        rec.count('steps')
        if amp == 0:
            rec.check(d < 1e-11, 'conductive profile', 'step %d: the conductive profile changed by %.2e' % (n[0], d))
        else:
            rec.check(d < dist[-2]*(1+1e-12)+1e-12, 'relaxation', 'step %d: the distance to the conductive profile grew from %.6e to %.6e'
                      % (n[0], dist[-2], d))
    H.solve(sim, update)
    if amp:
        # the slowest mode cos(pi x/2) decays with kappa*(pi/2)^2
        t = n[0]*case['dt']
        rate = np.log(dist[0]/dist[-1])/t
        want = case['kappa']*(np.pi/2)**2
        rec.maximum('decay_rate_deviation', abs(rate/want-1))
        rec.check(abs(rate/want-1) < 0.12, 'decay rate', 'the perturbation decays at %.4f instead of about %.4f' % (rate, want))
    rec.seen('config', [case['solver'], 'conduction', amp > 0])
    rec.nontrivial = n[0] > 1
    rec.sample = dict(distance=dist[:3]+dist[-1:])


def run_case(case, rec):
    if case['kind'] == 'conduction':
        return run_conduction(case, rec)
    orig = H.solve
    sim_walls = {}

    def solve(sim, update):
        W = H.Walls(sim)

        def up(c):
            monitor_walls(sim, W, rec, 'after a step')
            update(c)
        return orig(sim, up)
    H.solve = solve
    try:
        c13.run_case(case, rec)
    finally:
        H.solve = orig


def run(check, rng):
    q = check.tier == 'quick'
    cases = c13.make_cases(rng, 84 if q else 1200, ('KMM_RB', 'KMMRK3_RB'))
    for c in cases:
        c['kind'] = 'trajectory'
    for i in range(24 if q else 200):
        c = H.random_case(rng)
        c.update(kind='conduction', solver=('KMM_RB', 'KMMRK3_RB')[i % 2], N=[rng.choice([24, 32]), 4, rng.choice([4, 6])],
                 kappa=rng.choice([0.1, 0.3, 1.0]), nu=rng.choice([0.1, 0.5]), dt=0.02, force=0.0)
        c['init']['amp'] = rng.choice([0.0, 0.5])
        c['T'] = c['dt']*(rng.choice([10, 20])+0.3) if not c['init']['amp'] else 0.3/c['kappa']
        cases.append(c)
    check.run_serial(cases, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C14', 'checks.c14', flavour='lu', rule=(
        'both Rayleigh-Benard solvers with random resolved velocity and temperature fields, forms, dealiasing, quadratures, boxes and '
        'diffusivities against the independent reference, wall temperatures after every step, and conduction runs (steady profile, decay rate). '
        'Non-trivial: the velocity changes by more than 1e-3 of its size, or several conduction steps'),
        assumptions=['temperature is 1 at x=-1 and 0 at x=+1, the solvers\' fixed boundary values',
                     'KMM_RB advects the extrapolated temperature with the velocity of the old level (its stated scheme)'])
    raise SystemExit(runner.main(ck, run))
