"""C12: no-slip and continuity of the channel solvers."""
import numpy as np

from vlib import channel as C, chrun as H, runner


def check_state(sim, W, rec, label, u):
    case = sim.case
    s = np.abs(u).max()
    if not rec.check(np.isfinite(s), 'finite', '%s: the velocity is not finite' % label):
        return False
    rec.count('states')
    for nm, v in (('+1', W.top), ('-1', W.bot)):
        wall = np.tensordot(u, v, (1, 0))
        e = np.abs(wall).max()/max(s, 1e-30)
        rec.maximum('wall', e)
        rec.check(e < 1e-10, 'no-slip', '%s: velocity %.2e of the largest at x=%s' % (label, e, nm))
    d, sc = H.divergence(W, u, case['L'])
    e = np.abs(d).max()/max(sc, 1e-30)
    rec.maximum('divergence', e)
    rec.check(e < 1e-9, 'divergence', '%s: divergence %.2e relative to the derivatives' % (label, e))
    m = np.abs(u[0].mean(axis=(1, 2))).max()/max(s, 1e-30)
    rec.maximum('mean_wall_normal', m)
    rec.check(m < 1e-11, 'mean flow through walls', '%s: mean wall-normal velocity %.2e' % (label, m))
    return True


def reported(sim, W, rec, label, u):
    """The reported divergence is that of the reported velocity."""
    if not hasattr(sim.solver, 'get_divergence'):
        return
    d, sc = H.divergence(W, u, sim.case['L'])
    g = C.from_solver(sim, sim.solver.get_divergence(**sim.context))
    rec.close('%s: get_divergence' % label, g, d, 1e-9, scale=max(sc, 1e-30), sig='get_divergence')


def run_case(case, rec):
    sim = H.start(case)
    W = H.Walls(sim)
    n = [0]

    def update(c):
        n[0] += 1
        u = C.velocity(sim).copy()
        if check_state(sim, W, rec, 'step %d' % n[0], u):
            reported(sim, W, rec, 'step %d' % n[0], u)
    H.solve(sim, update)
    rec.seen('config', [case['solver'], case['convection'], case['dealias'], case['quad']])
    rec.nontrivial = n[0] > 0
    rec.sample = dict(steps=n[0], **rec.maxes)
    # a field that is not solenoidal, but satisfies the boundary conditions of the bases
    x = C.points(sim)
    rng = np.random.default_rng(case['init']['seed'])
    y = np.arange(case['N'][1])/case['N'][1]*2*np.pi
    z = np.arange(case['N'][2])/case['N'][2]*2*np.pi
    a, b = [int(rng.integers(-m, m+1)) for m in (min(2, (n_-1)//2) for n_ in case["N"][1:])]
    ph = rng.uniform(0, 6, 3)
    f = np.array([(1-x**2)**2*(1+rng.uniform()*x), (1-x**2)*(1+rng.uniform()*x), (1-x**2)*x])
    u = f[:, :, None, None]*np.cos(a*y[None, None, :, None]+b*z[None, None, None, :]+ph[:, None, None, None])
    u[1, :] += (1-x**2)[:, None, None]
    sim.context.U[:] = C.local(sim, C.to_solver(sim, u))
    sim.solver.set_velocity(**sim.context)
    v = C.velocity(sim).copy()
    rec.close('set_velocity, get_velocity', v, u, 1e-11, sig='set/get velocity')
    if case['solver'] not in ('Coupled', 'CoupledRK3'):
        # (the coupled solvers project the divergence on functions that vanish at the walls)
        reported(sim, W, rec, 'not solenoidal', v)


def run(check, rng):
    n = 90 if check.tier == 'quick' else 1500
    cases = []
    for i in range(n):
        c = H.random_case(rng)
        c['solver'] = C.SOLVERS[i % len(C.SOLVERS)]
        c['convection'] = H.FORMS[(i//len(C.SOLVERS)) % 4]
        if C.is_rb(c['solver']):
            c['kappa'], c['force'] = 0.1, 0.0
        # resolved or not, the invariants hold
        c['N'] = [rng.choice([16, 18, 22, 24, 32]), rng.choice([4, 6, 8, 9]), rng.choice([4, 6, 8, 9])]
        c['init']['kmax'] = rng.choice([1, 2, 4])
        c['init']['deg'] = rng.choice([3, 6])
        c['dt'] = rng.choice([0.002, 0.01])
        c['T'] = c['dt']*(rng.choice([2, 5, 8])+0.3)
        cases.append(c)
    check.run_serial(cases, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C12', 'checks.c12', flavour='lu', rule=(
        'random channel configurations (all solvers and forms cycled) with random no-slip solenoidal fields, resolved and not; after every '
        'step the monitor fits the Chebyshev expansion of the velocity, evaluates the walls and differentiates. Non-trivial: at least one step'),
        assumptions=['the velocity handed to the user on the quadrature points determines the expansion (N points, degree < N)'])
    raise SystemExit(runner.main(ck, run))
