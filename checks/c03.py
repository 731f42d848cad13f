"""C03: conservation laws and budgets of the periodic equations."""
import numpy as np

from vlib import periodic as P, runner

TOL = 1e-11
RATIO = {'RK4': 6.0, 'BS5_fixed': 10.0, 'AB2': 2.5, 'ForwardEuler': 1.5}


def cut(g, case, f):
    """The part of the state the nonlinear terms see."""
    if case['dealias'] == '2/3-rule':
        return np.where(g.kept, f, 0)
    return np.where(g.nonyq, f, 0)


def bilinear(sim, u):
    """Quadratic invariants of the dealiased part of a state: name -> value."""
    g, case, name = sim.grid, sim.case, sim.name
    u = cut(g, case, u)
    m = g.mean_product
    out = {}
    if name == 'NS':
        out = dict(energy=0.5*m(u, u), helicity=m(u, g.curl(u)))
    elif name == 'VV':
        v = g.velocity_from_vorticity(u)
        out = dict(energy=0.5*m(v, v), helicity=m(v, u))
    elif name == 'NS2D':
        w = g.curl(u)
        out = dict(energy=0.5*m(u, u), enstrophy=0.5*m(w, w))
    elif name == 'MHD':
        a = g.velocity_from_vorticity(u[3:])
        out = dict(energy=0.5*m(u, u), cross_helicity=m(u[:3], u[3:]))
        if np.max(np.abs(u[3:, 0, 0, 0])) == 0:
            out['magnetic_helicity'] = m(a, u[3:])
    else:
        out = dict(variance=0.5*m(u[2], u[2]), energy=0.5*m(u[:2], u[:2]))
    return out


def budgets(sim, u, r, src):
    """(name, rate from the tendency, rate by the budget, scale) for every law."""
    g, case, name = sim.grid, sim.case, sim.name
    nu = case['nu']
    z = (0,)*g.d
    full = u
    u = cut(g, case, u)
    rc = cut(g, case, r)
    lin = nu*g.K2*u
    m = g.mean_product
    n = lambda f: np.sqrt(m(f, f))
    s0 = 0*u if np.isscalar(src) else cut(g, case, src)
    size = n(rc)+n(lin)+n(s0)+1e-4*np.sqrt(g.K2.max())*n(full)**2
    if n(u) < 1e-6*n(full):
        return     # nothing the nonlinear terms see
    if name in ('NS', 'NS2D'):
        yield 'momentum', r[(slice(None),)+z], s0[(slice(None),)+z], size
        yield 'energy', m(u, r), -m(u, lin)+m(u, s0), n(u)*size
        w = g.curl(u)
        if name == 'NS':
            yield 'helicity', 2*m(w, r), -2*m(w, lin)+2*m(w, s0), n(w)*size
        else:
            yield 'enstrophy', m(w, g.curl(rc)), -nu*m(w, g.K2*w)+m(w, g.curl(s0)), n(w)*np.sqrt(g.K2.max())*size
    elif name == 'VV':
        v = g.velocity_from_vorticity(u)
        dv = g.velocity_from_vorticity(rc)
        yield 'mean vorticity', r[(slice(None),)+z], s0[(slice(None),)+z], size
        yield 'energy', m(v, dv), -nu*m(u, u)+m(v, g.velocity_from_vorticity(s0)), n(v)*size
        yield 'helicity', 2*m(v, r), -2*m(v, lin)+2*m(v, s0), n(v)*size
    elif name == 'MHD':
        eta = case.get('eta', 0.01)
        v, b = u[:3], u[3:]
        a = g.velocity_from_vorticity(b)
        lb = eta*g.K2*b
        size = size+n(lb)
        yield 'momentum and mean field', r[(slice(None),)+z], np.zeros(6), size
        yield 'energy', m(u, r), -m(v, lin[:3])-m(b, lb), n(u)*size
        yield 'cross helicity', m(v, r[3:])+m(b, r[:3]), -m(b, lin[:3])-m(v, lb), n(u)*size
        b0 = b[(slice(None),)+z].real
        emf = np.array([m(v[1], b[2])-m(v[2], b[1]), m(v[2], b[0])-m(v[0], b[2]), m(v[0], b[1])-m(v[1], b[0])])
        yield 'magnetic helicity', 2*m(a, r[3:]), -2*m(a, lb)-2*np.dot(b0, emf), n(a)*size+n(b)*n(v)*n(b)
    else:
        Ri, Pr = case.get('Ri', 0.1), case.get('Pr', 1.0)
        v, q = u[:2], u[2]
        size = size+Ri*n(q)+n(nu/Pr*g.K2*q)
        yield 'momentum', r[(slice(0, 2),)+z], np.array([0, -Ri*full[(2,)+z]]), size
        yield 'mean density', r[(2,)+z], 0, size
        yield 'energy', m(v, r[:2]), -m(v, lin[:2])-Ri*m(v[1], q), n(v)*size
        yield 'density variance', m(q, r[2]), -nu/Pr*m(q, g.K2*q), n(q)*size
        w = g.curl(v)
        b = g.curl(np.array([0*q, -Ri*q]))
        yield 'enstrophy', m(w, g.curl(rc[:2])), -nu*m(w, g.K2*w)+m(w, b), n(w)*np.sqrt(g.K2.max())*size


def simulate(case, rec, src_on, dt, each):
    sim = P.setup(dict(case, dt=dt))
    P.quiet_file(sim)
    u0 = P.init_field(case, sim.grid)
    src = P.source(sim, u0) if src_on else 0
    P.put(sim, sim.context.u, u0)
    real = sim.solver.ComputeRHS

    def monitored(*a, **k):
        u = P.gather(sim, a[1])
        out = real(*a, **k)
        each(sim, u, P.gather(sim, out), src)
        return out
    traj = [bilinear(sim, u0)]

    def update(context):
        traj.append(bilinear(sim, P.gather(sim, sim.context.u)))
    sim.solver.ComputeRHS = monitored
    sim.solver.update = update
    with np.errstate(all='ignore'):
        sim.sd.solve(sim.solver, sim.context)
    return sim, traj


def run_case(case, rec):
    def each(sim, u, r, src):
        s = np.max(np.abs(u))
        if s > 1e6:
            rec.count('outside_domain')
            return
        g = sim.grid
        nl = np.max(np.abs(r))
        if case['dealias'] == 'None' and case['convection'] not in ('Vortex', 'Skewed'):
            return
        for name, got, want, scale in budgets(sim, u, r, src):
            if case['dealias'] == 'None' and name in ('helicity', 'enstrophy', 'magnetic helicity', 'cross helicity') or \
                    case['dealias'] == 'None' and sim.name in ('VV', 'MHD', 'Bq2D') and name not in (
                        'momentum', 'mean vorticity', 'momentum and mean field', 'mean density'):
                continue     # aliasing breaks these
            rec.close('budget of %s' % name, np.asarray(got), np.asarray(want)+0*np.asarray(got), TOL,
                      scale=max(scale, 1e-30), sig='budget %s' % name)
            rec.count('budgets')
            rec.seen('laws', [sim.name, name])
        rec.maximum('tendency', nl)

    if not case.get('drift'):
        simulate(case, rec, case.get('source'), case['dt'], each)
        rec.seen('config', [case['solver'], case['dealias'], case['convection'], case['integrator']])
        rec.nontrivial = rec.obs.get('budgets', 0) > 0 and rec.maxes.get('tendency', 0) > 1e-8
        rec.sample = dict(budgets=rec.obs.get('budgets', 0), tendency=rec.maxes.get('tendency'))
        return
    # drift of the invariants at two step sizes
    sim, A = simulate(case, rec, False, case['dt'], each)
    sim, B = simulate(case, rec, False, case['dt']/2, each)
    rec.check(len(B) == 2*len(A)-1, 'steps', 'half the step took %d steps instead of %d' % (len(B)-1, 2*len(A)-2))
    B = B[::2]
    for q in A[0]:
        scale = max(abs(A[0][q]), A[0].get('energy', 1.0), 1e-12)
        if case['solver'] == 'Bq2D' and q == 'energy':
            continue
        da = sum(abs(x[q]-A[0][q]) for x in A)/scale
        db = sum(abs(x[q]-A[0][q]) for x in B)/scale
        rec.count('drifts')
        rec.check(db <= da/RATIO[case['integrator']]+1e-12*len(B), 'drift of %s' % q,
                  '%s drifts by %.3e with dt and %.3e with dt/2 (%s)' % (q, da, db, case['integrator']))
        if da > 1e-11:
            rec.count('drifts_resolved')
            rec.nontrivial = True
    rec.sample = dict(first=A[0], last=A[-1], last_half_step=B[-1])


def run(check, rng):
    def make():
        c = P.random_case(rng, kinds=('full', 'smooth', 'full', 'band'))
        if c['dealias'] == 'None' and rng.random() < 0.7:
            c['dealias'] = '3/2-rule'
        c['mask_nyquist'] = True
        P.defaults(rng, c, steps=(1, 2, 3))
        c['source'] = rng.random() < 0.4
        return c

    def drift():
        c = make()
        c['dealias'] = rng.choice(['2/3-rule', '3/2-rule'])
        c['drift'] = True
        c['nu'] = 0.0
        c['eta'] = 0.0
        c['init'].update(kind='smooth', mean=0.3)
        c['N'] = [max(8, n) for n in c['N']]
        c['integrator'] = rng.choice(list(RATIO))
        c['dt'] = P.stable_dt(c, 0.15)
        c['T'] = c['dt']*rng.choice([4, 6])
        if c['solver'] == 'MHD' and rng.random() < 0.6:
            c['init']['mean'] = 0.0
        return c
    n = 300 if check.tier == 'quick' else 4000
    cases = P.combos(rng, make, [w for w in P.ALL if w[2] != 'None']*2, n)
    cases += [drift() for _ in range(n//4)]
    check.run_serial(cases)


if __name__ == '__main__':
    ck = runner.Check('C03', 'checks.c03', rule=(
        'random periodic configurations; at every right-hand side the rates of momentum, energy, helicity, enstrophy, '
        'cross and magnetic helicity, density mean and variance are computed from state and tendency and compared with '
        'their budgets; a quarter of the cases run inviscidly with dt and dt/2 and compare the drift. '
        'Non-trivial: a budget was evaluated on a tendency above 1e-8, or a drift above 1e-11 was resolved'),
        assumptions=['identities are those of the alias-free discretisation (or of the rotational/skew forms without dealiasing)'])
    raise SystemExit(runner.main(ck, run))
