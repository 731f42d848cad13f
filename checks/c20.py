"""C20: single precision runs follow double precision runs."""
import numpy as np

from vlib import periodic as P, channel as C, runner, sdns

EPS = float(np.finfo(np.float32).eps)
GETTERS = {'NS': ('velocity', 'pressure', 'curl', 'divergence'), 'NS2D': ('velocity', 'pressure', 'curl', 'divergence'),
           'VV': ('velocity', 'curl', 'divergence'), 'MHD': ('divergence',), 'Bq2D': ('velocity', 'divergence')}


def floats(sim):
    """name -> dtype of every floating point array kept in the context."""
    return {k: v.dtype for k, v in sim.context.items() if isinstance(v, np.ndarray) and v.dtype.kind in 'fc' and v.size}


def execute(case, precision, rec):
    c = dict(case, precision=precision)
    sim = P.setup(c)
    P.quiet_file(sim)
    g = sim.grid
    # the same (single precision) numbers in both runs
    q = [g.fwd(g.bck(P.init_field(case, g)).astype('f4').astype('f8')).astype('c8')]
    P.put(sim, sim.context.u, q[0])
    if case.get('source') and case['solver'] in ('NS', 'NS2D', 'VV'):
        src = P.random_field(np.random.default_rng(case['init']['seed']+7), g, q[0].shape[0], True, mean=0.2, amp=0.5)
        P.put(sim, sim.context.Source, src.astype('c8'))
    trace = []

    def update(ctx):
        trace.append((float(sim.params.t), int(sim.params.tstep), P.gather(sim, ctx.u).astype('c16')))
        if len(trace) > 4000:
            raise RuntimeError('%d steps' % len(trace))
    sim.solver.update = update
    before = floats(sim)
    sim.sd.solve(sim.solver, sim.context)
    after = floats(sim)
    out = {}
    for name in GETTERS[case['solver']]:
        f = getattr(sim.solver, 'get_'+name, None)
        if f is not None:
            v = f(**sim.context)
            after['get_'+name] = np.asarray(v).dtype
            out[name] = P.gather(sim, v, False).astype('f8')
    if precision == 'single':
        # Python-level helper arrays aside, nothing that holds the solution may have become double
        keep = ('u', 'U', 'U_hat', 'W', 'W_hat', 'UB', 'UB_hat', 'Ur', 'Ur_hat', 'dU', 'P', 'P_hat', 'curl', 'Source', 'rho', 'rho_hat', 'B', 'B_hat', 'phi_hat', 'u_dealias')
        for when, d in (('before', before), ('after', after)):
            for k, t in d.items():
                if k in keep or k.startswith('get_'):
                    rec.count('dtypes')
                    rec.check(t in (np.dtype('f4'), np.dtype('c8')), 'dtype', '%s is %s in a single precision run (%s)' % (k, t, when))
        for k in ('nu', 'eta', 'Ri', 'Pr'):
            if k in case and k in sim.params:
                v = getattr(sim.params, k)
                rec.check(abs(float(v)-case[k]) <= 2*EPS*abs(case[k]), 'parameter', '%s is %r, not %r' % (k, v, case[k]))
    return sim, q[0], trace, out


def run_case(case, rec):
    if case['kind'] == 'channel':
        try:
            sim = C.setup(case, extra={'precision': 'single'})
        except AssertionError:
            rec.count('channel_refused')
            rec.nontrivial = True
            return
        bad = [k for k, t in floats(sim).items() if k in ('U', 'U_hat', 'u') and t not in (np.dtype('f4'), np.dtype('c8'))]
        rec.check(not bad, 'dtype', '%s accepts single precision and computes in double: %s' % (case['solver'], bad))
        rec.nontrivial = True
        return
    s1, u0, a, fa = execute(case, 'double', rec)
    s2, _, b, fb = execute(case, 'single', rec)
    adaptive = case['integrator'] == 'BS5_adaptive'
    root = s1.comm.Get_rank() == 0
    if not adaptive:
        rec.check([x[:2] for x in a] == [x[:2] for x in b], 'times', 'times and steps differ: %s, single: %s' % ([x[:2] for x in a][-3:], [x[:2] for x in b][-3:]))
    else:
        rec.check(b[-1][0] >= case['T']*(1-1e-12), 'times', 'a single precision run to %g ends at %g' % (case['T'], b[-1][0]))
    g = s1.grid
    big = max(np.abs(g.bck(u0)).max(), 1e-30)
    kmax = max(np.abs(k).max() for k in g.K)
    n = len(a)
    if adaptive:
        pairs = [(a[-1], b[-1])] if abs(a[-1][0]-b[-1][0]) < 1e-12 else []
        rec.count('adaptive_same_end', len(pairs))
    else:
        pairs = list(zip(a, b))
    # rounding of the state and of its rate of change in every stage, times a logarithm for the transforms
    for i, (x, y) in enumerate(pairs):
        m = (n if adaptive else i+1)
        p, q = g.bck(x[2]), g.bck(y[2])
        scale = max(np.abs(p).max(), big)
        tol = 4*EPS*(2+m)
        rec.close('state after step %d' % m, q, p, tol, scale=scale, sig='single-differs')
        rec.maximum('error_over_eps_steps', float(np.abs(q-p).max()/scale/EPS/m) if np.isfinite(q).all() else 1e9)
        rec.count('steps')
    if pairs:
        for k in fa:
            s = max(np.abs(fa[k]).max(), {'velocity': big, 'curl': big, 'pressure': big**2, 'divergence': big*kmax}[k])
            rec.close('get_'+k, fb[k], fa[k], 4*EPS*(2+n)*(1 if k in ('velocity',) else kmax), scale=s, sig='single-differs-'+k)
            rec.count('getters')
    rec.nontrivial = len(b) > 0 and np.abs(b[-1][2]-u0).max() > 1e-4*np.abs(u0).max()
    rec.seen('config', [case['solver'], case['convection'], case['dealias'], case['integrator'], case.get('optimization')])
    if root:
        rec.sample = dict(steps=len(b), t=b[-1][0], **rec.maxes)


def run(check, rng):
    quick = check.tier == 'quick'
    opts = [None, None, 'cython', 'numba', 'pythran']

    def make():
        c = P.defaults(rng, P.random_case(rng), steps=(2, 3, 5, 8))
        c['timeout'] = 300
        if c['integrator'] == 'BS5_adaptive':
            c['TOL'] = rng.choice([1e-2, 1e-3])
            c['T'] -= 0.63*c['dt']
        elif rng.random() < 0.4:
            # end times that are not sums of steps, and steps that single precision does not represent
            c['T'] = c['dt']*(rng.choice([3, 7, 10])+rng.choice([0.0, 0.5]))
            c['dt'] = float('%.2g' % c['dt'])
        return c
    cases = P.combos(rng, make, P.ALL, 150 if quick else 4000)
    for i, c in enumerate(cases):
        c['kind'] = 'pair'
        c['source'] = rng.random() < 0.3
        o = opts[i % len(opts)]
        if o == 'pythran' and c['solver'] in ('MHD', 'Bq2D', 'NS2D'):
            o = 'cython'
        if o:
            c['optimization'] = o
    # long runs: times must not drift
    for i in range(4 if quick else 40):
        c = P.random_case(rng, kinds=('smooth',))
        c.update(kind='pair', integrator=rng.choice(['RK4', 'AB2', 'ForwardEuler']), dt=rng.choice([0.01, 0.001, 0.003]), N=[8]*P.DIM[c['solver']], nu=0.01)
        c['init'].update(amp=0.1, mean=0.0)
        c['dt'] = min(c['dt'], P.stable_dt(c))
        c['dt'] = float('%.1g' % c['dt'])
        c['T'] = c['dt']*rng.choice([100, 150, 200])
        c['timeout'] = 300
        cases.append(c)
    chan = [dict(kind='channel', solver=s, N=[16, 8, 8], L=[4., 4.], nu=0.01, dt=0.01, T=0.02, precision='single', quad='GC', dealias='3/2-rule',
                 convection='Vortex', mask_nyquist=True, force=0.0, kappa=0.1) for s in C.SOLVERS]
    check.run_serial(cases+chan, flavour='lu')
    mpi = []
    for k in range(3 if quick else 20):
        cs = []
        for j in range(6):
            c = dict(rng.choice(cases))
            if min(c['N']) < 8 or c.get('timeout') is None:
                c = make()
                c.update(kind='pair', N=[8]*P.DIM[c['solver']])
            cs.append(c)
        mpi.append((rng.choice([2, 2, 3, 4]), cs))
    check.run_mpi(mpi, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C20', 'checks.c20', flavour='lu', rule=(
        'pairs of runs with the same single precision initial numbers, in double and in single precision, over solvers, forms, dealiasing, '
        'integrators, optimizations and process counts; states after every step, times, step numbers, data types and the fields the getters '
        'return are compared. Non-trivial: the state changes by more than rounding'),
        assumptions=['the difference allowed is 4 eps (2 + steps) of the largest value, at stable steps (CFL 0.1)',
                     'adaptive steps: the same end time only, states where the steps coincide'])
    raise SystemExit(runner.main(ck, run))
