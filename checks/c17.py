"""C17: diagnostics are those of the current state, and do not disturb the run."""
import random

import numpy as np

from vlib import periodic as P, channel as C, chrun as H, runner

DIAG = {'NS': ('velocity', 'curl', 'pressure', 'divergence'), 'NS2D': ('velocity', 'curl', 'pressure', 'divergence'),
        'VV': ('velocity', 'curl', 'divergence'), 'MHD': ('divergence',), 'Bq2D': ('velocity', 'rho', 'Ur')}
CDIAG = ('velocity', 'divergence', 'derivatives', 'curl')


# ---- periodic solvers ---------------------------------------------------------------------
def expected(sim, what, state, last):
    g = sim.grid
    u = P.velocity_hat(sim, state)
    if what == 'velocity':
        return g.bck(u), u
    if what == 'curl':
        w = state if sim.name == 'VV' else g.curl(u)
        return g.bck(w), w
    if what == 'divergence':
        d = g.div(u)
        return g.bck(d), g.K[0]*u
    if what == 'rho':
        return g.bck(state[2]), state[2]
    if what == 'Ur':
        return g.bck(state), state
    p = g.pressure_hat(last, sim.case.get('convection', 'Vortex'), bool(sim.case.get('mask_nyquist', True)))
    return g.bck(p), p


def scale_of(sim, what, state, last, want):
    s = np.abs(want).max()
    kmax = max(np.pi*n/l for n, l in zip(sim.grid.N, sim.grid.L))
    if what in ('curl', 'divergence') and sim.name != 'VV':
        s = max(s, kmax*np.abs(state).max())
    elif what == 'divergence':
        s = max(s, np.abs(state).max())
    elif what == 'pressure':
        s = max(s, np.abs(sim.grid.bck(last)).max()**2)
    return max(s, 1e-30)


def ask(sim, what, rec, where, last):
    c = sim.context
    if what == 'pressure' and last is None:
        return
    state = P.gather(sim, c.u).copy()
    try:
        got = P.gather(sim, getattr(sim.solver, 'get_'+what)(**c), False)
    except Exception as e:              # pylint: disable=broad-except
        rec.violation('diagnostic fails-'+what, '%s: get_%s of %s: %r' % (where, what, sim.name, e))
        return
    rec.count('calls_'+what)
    if not sim.nyq_safe(state) or what == 'pressure' and not (sim.nyq_safe(last) and sim.case.get('mask_nyquist', True)):
        rec.count('unspecified_nyquist')
    else:
        want, _ = expected(sim, what, state, last)
        rec.close('%s: get_%s (%s)' % (where, what, sim.name), got, want, 1e-11,
                  scale=scale_of(sim, what, state, last, want), sig='value-'+what)
    rec.check(np.array_equal(P.gather(sim, c.u), state), 'state changed', '%s: get_%s changed the state' % (where, what))


def periodic_run(case, rec, diag):
    last = [None]
    busy = [False]
    plan = random.Random(case['plan'])
    sim = P.setup(case)
    names = DIAG[sim.name]

    def nyq_safe(u):
        return not np.abs(np.where(sim.grid.nonyq, 0, u)).max() > 1e-14*max(np.abs(u).max(), 1e-300)
    sim.nyq_safe = nyq_safe

    def inject(where):
        if not diag or busy[0]:
            return
        busy[0] = True
        for _ in range(plan.randrange(0, 4)):
            ask(sim, plan.choice(names), rec, where, last[0])
        rec.count('moments')
        busy[0] = False
    rhs = sim.solver.ComputeRHS
    n = [0]

    def computing(r, u_hat, *a, **k):
        n[0] += 1
        inject('before evaluation %d' % n[0])
        u = P.gather(sim, u_hat).copy()
        out = rhs(r, u_hat, *a, **k)
        last[0] = u
        return out
    sim.solver.ComputeRHS = computing
    sim.solver.update = lambda c: inject('after step %d' % sim.params.tstep)
    sim.solver.additional_callback = lambda c: inject('in the callback of the integrator')
    P.quiet_file(sim)
    P.put(sim, sim.context.u, P.init_field(case, sim.grid))
    P.source(sim, P.init_field(case, sim.grid)) if case.get('source') else None
    inject('before the run')
    sim.sd.solve(sim.solver, sim.context)
    inject('after the run')
    if diag and case['solver'] in ('NS', 'NS2D'):
        # a second run in the same context, after all those calls
        sim.params.T = sim.params.t+2*case['dt']
        sim.sd.solve(sim.solver, sim.context)
        sim.params.T = sim.params.t
    elif case['solver'] in ('NS', 'NS2D'):
        sim.params.T = sim.params.t+2*case['dt']
        sim.sd.solve(sim.solver, sim.context)
    return sim, P.gather(sim, sim.context.u).copy(), (float(sim.params.t), int(sim.params.tstep))


def set_get(sim, rec, seed):
    """set_velocity then get_velocity, on any field without Nyquist content."""
    rng = np.random.default_rng(seed)
    g = sim.grid
    u = g.bck(np.where(g.nonyq, g.fwd(rng.standard_normal((g.d,)+g.N)), 0))
    P.put(sim, sim.context.U, u, False)
    sim.solver.set_velocity(**sim.context)
    rec.close('coefficients after set_velocity', P.gather(sim, sim.context.U_hat), g.fwd(u), 1e-13,
              scale=np.abs(u).max(), sig='set_velocity')
    sim.context.U[:] = 77
    v = P.gather(sim, sim.solver.get_velocity(**sim.context), False)
    rec.close('get_velocity after set_velocity', v, u, 1e-12, scale=np.abs(u).max(), sig='set/get')
    rec.count('set_get')
    div = P.gather(sim, sim.solver.get_divergence(**sim.context), False)
    w = g.bck(g.div(g.fwd(u)))
    rec.close('divergence of a field that has one', div, w, 1e-11, scale=np.abs(w).max(), sig='value-divergence')
    cu = P.gather(sim, sim.solver.get_curl(**sim.context), False)
    w = g.bck(g.curl(g.fwd(u)))
    rec.close('curl of any field', cu, w, 1e-11, scale=np.abs(w).max(), sig='value-curl')


def periodic(case, rec):
    sim, a, ta = periodic_run(case, rec, False)
    sim, b, tb = periodic_run(case, rec, True)
    s = max(np.abs(a).max(), 1e-30)
    rec.close('final state with and without diagnostics', b, a, 1e-11, scale=s, sig='disturbed')
    rec.check(ta == tb or case['integrator'] == 'BS5_adaptive' and abs(ta[0]-tb[0]) < 1e-9, 'disturbed',
              'time and step with diagnostics %s, without %s' % (tb, ta))
    if case['solver'] in ('NS', 'NS2D'):
        set_get(sim, rec, case['plan'])
    rec.seen('config', [case['solver'], case['convection'], case['dealias'], case['integrator']])
    rec.nontrivial = rec.obs.get('moments', 0) > 3
    rec.sample = dict(rec.obs)


# ---- channel solvers ------------------------------------------------------------------------
def derivatives(W, u, L):
    out = np.zeros((3, 3)+u.shape[1:])
    for i in range(3):
        out[i, 0] = W.ddx(u[i])
        out[i, 1] = H.fourier_d(u[i], 1, L[0])
        out[i, 2] = H.fourier_d(u[i], 2, L[1])
    return out


def channel_ask(sim, what, rec, where, W):
    c, solver, L = sim.context, sim.solver, sim.case['L']
    if what == 'derivatives' and not hasattr(solver, 'compute_derivatives'):
        return
    if what in ('curl',) and not hasattr(solver, 'get_curl'):
        return
    if what == 'curl' and sim.case['dealias'] != 'None':
        return          # given on the grid and with the modes of the dealiased space
    before = np.array(c.U_hat)
    u = C.velocity(sim).copy()
    want = derivatives(W, u, L)
    s = max(np.abs(want).max(), 1e-30)
    if what == 'divergence':
        got = C.from_solver(sim, solver.get_divergence(**c)).copy()
        rec.close('%s: get_divergence' % where, got, want[0, 0]+want[1, 1]+want[2, 2], 1e-9, scale=s, sig='value-divergence')
    elif what == 'derivatives':
        got = np.array(solver.compute_derivatives(**c))
        perm = [2, 0, 1] if sim.axis == 2 else [0, 1, 2]
        for i in range(3):
            for j in range(3):
                g = C.from_solver(sim, got[perm[i], perm[j]])
                rec.close('%s: derivative %d,%d' % (where, i, j), g, want[i, j], 1e-9, scale=s, sig='value-derivatives')
    elif what == 'curl':
        from shenfun import Array
        a = Array(c.VFSp)
        solver.get_curl(a, **{k: v for k, v in c.items() if k != 'curl'})
        w = np.array([want[2, 1]-want[1, 2], want[0, 2]-want[2, 0], want[1, 0]-want[0, 1]])
        rec.close('%s: get_curl' % where, C.from_solver(sim, a), w, 1e-9, scale=s, sig='value-curl')
    rec.count('calls_'+what)
    rec.check(np.array_equal(np.array(c.U_hat), before), 'state changed', '%s: asking for %s changed the state' % (where, what))


def channel_run(case, rec, diag):
    plan = random.Random(case['plan'])
    sim = H.start(case)
    W = H.Walls(sim)
    inside = [False]

    def inject(where, full=True):
        if not diag:
            return
        for _ in range(plan.randrange(0, 4)):
            channel_ask(sim, plan.choice(CDIAG if full else ('velocity', 'velocity')), rec, where, W)
        rec.count('moments')
    rhs = sim.solver.ComputeRHS

    def computing(*a, **k):
        if diag and not inside[0] and plan.random() < 0.3:
            inside[0] = True
            inject('before an evaluation', full=not C.is_rk3(case['solver']))
            inside[0] = False
        return rhs(*a, **k)
    sim.solver.ComputeRHS = computing
    H.solve(sim, lambda c: inject('after step %d' % sim.params.tstep))
    return sim, C.velocity(sim).copy(), (C.temperature(sim).copy() if C.is_rb(case['solver']) else None)


def channel(case, rec):
    sim, a, ta = channel_run(case, rec, False)
    sim, b, tb = channel_run(case, rec, True)
    rec.close('final velocity with and without diagnostics', b, a, 1e-11, scale=np.abs(a).max(), sig='disturbed channel')
    if ta is not None:
        rec.close('final temperature with and without diagnostics', tb, ta, 1e-11, scale=1., sig='disturbed channel')
    rec.seen('config', [case['solver'], case['convection'], case['dealias'], case['quad']])
    rec.nontrivial = rec.obs.get('moments', 0) > 3
    rec.sample = dict(rec.obs)


def channel_pressure(case, rec):
    """get_pressure after a step, where there is one: grad(p) balances the momentum equation over that step."""
    name = case['solver']
    got = []
    sims = []
    for ask_for in (False, True):
        sim = H.start(case)
        W = H.Walls(sim)
        L = case['L']
        us = [C.velocity(sim).copy()]
        ts = [C.from_solver(sim, C.temperature(sim)).copy()] if C.is_rb(name) else []

        def update(c, sim=sim, us=us, ts=ts, ask_for=ask_for):
            us.append(C.velocity(sim).copy())
            if not ask_for:
                return
            try:
                p = C.from_solver(sim, np.array(sim.solver.get_pressure(c, sim.solver)))
            except Exception as e:      # pylint: disable=broad-except
                rec.violation('channel pressure fails '+name, '%s.get_pressure: %r' % (name, e))
                return
            rec.count('calls_channel_pressure')
            u, dt = 0.5*(us[-1]+us[-2]), case['dt']
            d = derivatives(W, u, L)
            conv = np.array([(u*d[i]).sum(0) for i in range(3)])
            lap = np.array([W.ddx(d[i, 0])+H.fourier_d(d[i, 1], 1, L[0])+H.fourier_d(d[i, 2], 2, L[1]) for i in range(3)])
            F = -conv+case['nu']*lap-(us[-1]-us[-2])/dt
            if C.is_rb(name):
                ts.append(C.from_solver(sim, C.temperature(sim)).copy())
                F[0] += 0.5*(ts[-1]+ts[-2])
            q = np.array([W.ddx(p), H.fourier_d(p, 1, L[0]), H.fourier_d(p, 2, L[1])])
            F[1:] -= F[1:].mean(axis=(2, 3), keepdims=True)
            scale = np.abs(F).max()
            rec.close('step %d: wall-normal gradient of the pressure (%s)' % (len(us)-1, name), q[0], F[0], 0.05, scale=scale,
                      sig='channel pressure value '+name)
            # the equations along the walls hold in the mean over all heights, not at the walls
            w = np.sin(np.pi*(np.arange(len(p))+0.5)/len(p))[None, :, None, None]**4
            rec.close('step %d: gradient of the pressure along the walls (%s)' % (len(us)-1, name), w*q[1:], w*F[1:], 0.2, scale=scale,
                      sig='channel pressure value '+name)
            rec.maximum('dpdx_error', float(np.abs(q[0]-F[0]).max()/scale))
            rec.maximum('dpdy_error', float(np.abs(w*(q-F)[1:]).max()/scale))
        if not hasattr(sim.solver, 'get_pressure'):
            return
        H.solve(sim, update)
        got.append(C.velocity(sim).copy())
        sims.append(sim)
    if not rec.obs.get('calls_channel_pressure'):
        return
    rec.close('final velocity with and without the pressure', got[1], got[0], 1e-11, scale=np.abs(got[0]).max(),
              sig='channel pressure disturbs')
    rec.nontrivial = True


def run_case(case, rec):
    if case['kind'] == 'channel-pressure':
        return channel_pressure(case, rec)
    if case['kind'] == 'channel':
        channel(case, rec)
    else:
        periodic(case, rec)


def run(check, rng):
    quick = check.tier == 'quick'
    want = [(s, f, d) for s, f, d in P.ALL]
    cases = P.combos(rng, lambda: P.defaults(rng, P.random_case(rng), steps=(2, 3, 4)), want, 120 if quick else 2500)
    for c in cases:
        c['kind'] = 'periodic'
        c['plan'] = rng.randrange(10**9)
        c['source'] = rng.random() < 0.3
        if c['integrator'] == 'BS5_adaptive':
            c['TOL'] = rng.choice([1e-4, 1e-8])
    ch = []
    for i in range(60 if quick else 1200):
        c = H.random_case(rng)
        c['solver'] = C.SOLVERS[i % len(C.SOLVERS)]
        c['convection'] = H.FORMS[(i//len(C.SOLVERS)) % 4]
        c['dealias'] = ('None', '3/2-rule', '2/3-rule')[i % 3]
        c.pop('kappa', None)
        if C.is_rb(c['solver']):
            c['kappa'], c['force'] = 0.1, 0.0
        c['N'] = [rng.choice([16, 18, 24, 32]), rng.choice([6, 8, 9]), rng.choice([6, 8, 9])]
        c['T'] = c['dt']*(rng.choice([2, 3, 4])+0.3)
        c['kind'], c['plan'] = 'channel', rng.randrange(10**9)
        ch.append(c)
    for name in C.SOLVERS:
        for form in ('Vortex', 'Divergence'):
            c = dict(kind='channel-pressure', solver=name, N=[32, 8, 8], L=[6.283185307179586, 4.0], nu=0.1, dt=0.002, T=0.0087,
                     dealias='3/2-rule', convection=form, quad='GC', force=0.0, mask_nyquist=True,
                     init=dict(seed=rng.randrange(10**6), kmax=1, amp=0.3))
            if C.is_rb(name):
                c['kappa'] = 0.1
            ch.append(c)
    check.run_serial(cases+ch, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C17', 'checks.c17', flavour='lu', rule=(
        'paired runs of the same case, one of which calls random diagnostics at random moments (before, between and inside steps, in '
        'callbacks, after the run); each value is compared with the monitor\'s own calculus on the state at that moment, and the final '
        'states with each other. Non-trivial: more than three moments with calls'),
        assumptions=['the pressure of the periodic solvers belongs to the right-hand side evaluated last'])
    raise SystemExit(runner.main(ck, run))
