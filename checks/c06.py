"""C06: optimised implementations against the plain ones (paired runs and paired calls)."""
import importlib

import numpy as np

from vlib import periodic as P, channel as C, chrun as H, sdns, runner

OPTS = ('cython', 'numba', 'pythran')


def state(sim):
    u = sim.context.u
    return [np.array(x) for x in u] if isinstance(u, tuple) else [np.array(u)]


def run_periodic(case):
    out = []
    sim = P.setup(case)
    P.quiet_file(sim)
    u0 = P.init_field(case, sim.grid)
    if case.get('source'):
        P.source(sim, u0)
    P.put(sim, sim.context.u, u0)
    sim.solver.update = lambda c: out.append([float(sim.params.t)]+state(sim))
    with np.errstate(all='ignore'):
        sim.sd.solve(sim.solver, sim.context)
    return out


def run_channel(case):
    out = []
    sim = H.start(case)
    H.solve(sim, lambda c: out.append([float(sim.params.t), np.array(C.velocity(sim))] +
                                      ([C.temperature(sim)] if C.is_rb(case['solver']) else [])))
    return out


def paired(case, rec):
    runner_ = run_channel if case['solver'] in C.SOLVERS else run_periodic
    base = dict(case, optimization='')
    with sdns.Quiet():
        ref = runner_(base)
    tol = 1e-11 if case.get('precision', 'double') == 'double' else 3e-5
    for opt in case['opts']:
        with sdns.Quiet():
            got = runner_(dict(case, optimization=opt))
        rec.count('paired_runs')
        rec.seen('pair', [case['solver'], opt, case.get('precision'), case.get('integrator'), case['convection'], case['dealias']])
        if not rec.check(len(got) == len(ref), 'steps', '%s: %d steps, plain %d' % (opt, len(got), len(ref))):
            continue
        for n, (a, b) in enumerate(zip(got, ref)):
            if not np.all(np.isfinite(b[1])):
                break
            rec.check(abs(a[0]-b[0]) <= (1e-9 if tol < 1e-6 else 1e-3)*max(1, abs(b[0])) if 'adaptive' in case.get('integrator', '')
                      else a[0] == b[0], 'time', '%s: time %r, plain %r' % (opt, a[0], b[0]))
            for q, (x, y) in enumerate(zip(a[1:], b[1:])):
                rec.check(x.dtype == y.dtype, 'dtype', '%s: %s, plain %s' % (opt, x.dtype, y.dtype))
                rec.close('%s: field %d after step %d' % (opt, q, n+1), x, y, tol, sig='run-%s-%s' % (opt, case.get('precision', 'double')))
    rec.nontrivial = len(ref) > 0


# ---- direct calls: (module, name, dimension, argument maker) ---------------------------------------

def arrays(rng, prec, shape, ncomp=3):
    r = np.float64 if prec == 'double' else np.float32
    c = np.complex128 if prec == 'double' else np.complex64
    real = lambda *s: rng.standard_normal(s).astype(r)
    cplx = lambda *s: (rng.standard_normal(s)+1j*rng.standard_normal(s)).astype(c)
    K = []
    for i, n in enumerate(shape):
        K.append(rng.standard_normal(n).astype(r).reshape([-1 if i == j else 1 for j in range(len(shape))]))
    return r, c, real, cplx, K


class FakeSolver(object):
    """A right-hand side the monitor knows."""

    def __init__(self, c):
        self.c = c

    def ComputeRHS(self, rhs, u, solver, **context):
        rhs[:] = self.c*u*np.abs(u)+0.3*np.roll(np.asarray(u), 1, axis=0)
        return rhs


def kernel_args(name, rng, prec, shape):
    r, c, real, cplx, K = arrays(rng, prec, shape)
    d = len(shape)
    nu = r(0.37)
    dt = r(0.11)
    if name == 'cross1':
        return (real(*(((3,) if d == 3 else ())+shape)), real(d, *shape), real(d, *shape))
    if name == 'cross2:array':
        return (cplx(*(((3,) if d == 3 else ())+shape)), real(d, *shape), cplx(d, *shape))
    if name == 'cross2:list':
        return (cplx(*(((3,) if d == 3 else ())+shape)), K, cplx(d, *shape))
    if name == 'RK4':
        a = np.array([1./6., 1./3., 1./3., 1./6.], dtype=r)
        b = np.array([0.5, 0.5, 1.], dtype=r)
        m = rng.integers(1, 7)
        return (cplx(m, *shape), cplx(m, *shape), cplx(m, *shape), cplx(m, *shape), a, b, dt, FakeSolver(c(0.4-0.2j)), {})
    if name == 'ForwardEuler':
        m = rng.integers(1, 7)
        return (cplx(m, *shape), cplx(m, *shape), dt, FakeSolver(c(0.4-0.2j)), {})
    if name.startswith('AB2'):
        m = rng.integers(1, 7)
        return (cplx(m, *shape), cplx(m, *shape), cplx(m, *shape), dt, int(name.split(':')[1]), FakeSolver(c(0.4-0.2j)), {})
    if name == 'apd:NS':
        return (cplx(3, *shape), cplx(3, *shape), nu, real(*shape), K, cplx(*shape), real(3, *shape))
    if name == 'apd:NS2D':
        return (cplx(2, *shape), cplx(2, *shape), nu, real(*shape), K, cplx(*shape), real(2, *shape))
    if name == 'apd:Bq2D':
        return (cplx(3, *shape), cplx(3, *shape), cplx(*shape), real(2, *shape), K, real(*shape), nu, r(0.3), r(0.7))
    if name == 'mult_K1j':
        return (K, cplx(*shape), cplx(2, *shape))
    if name == 'assembleAB':
        return (cplx(3, *shape), cplx(3, *shape), cplx(3, *shape))
    if name == 'compute_vw':
        return (cplx(3, *shape), cplx(*shape), cplx(*shape), real(2, *shape))
    raise KeyError(name)


KERNELS = {  # name: (solver to import, module, attribute)
    'cross1': (None, 'spectralDNS.maths.cross', 'cross1'),
    'cross2:array': (None, 'spectralDNS.maths.cross', 'cross2'),
    'cross2:list': (None, 'spectralDNS.maths.cross', 'cross2'),
    'RK4': (None, 'spectralDNS.maths.integrators', 'RK4'),
    'ForwardEuler': (None, 'spectralDNS.maths.integrators', 'ForwardEuler'),
    'AB2:0': (None, 'spectralDNS.maths.integrators', 'AB2'),
    'AB2:3': (None, 'spectralDNS.maths.integrators', 'AB2'),
    'apd:NS': ('NS', 'spectralDNS.solvers.NS', 'add_pressure_diffusion'),
    'apd:NS2D': ('NS2D', 'spectralDNS.solvers.NS2D', 'add_pressure_diffusion'),
    'apd:Bq2D': ('Bq2D', 'spectralDNS.solvers.Bq2D', 'add_pressure_diffusion'),
    'mult_K1j': ('KMM', 'spectralDNS.solvers.KMM', 'mult_K1j'),
    'assembleAB': ('KMM', 'spectralDNS.solvers.KMM', 'assembleAB'),
    'compute_vw': ('KMM', 'spectralDNS.solvers.KMM', 'compute_vw'),
}
CHANNEL = ('mult_K1j', 'assembleAB', 'compute_vw')


def load(opt, prec, solver):
    """The routines as the package dispatches them for this configuration."""
    if solver in C.SOLVERS:
        sim = C.setup(dict(solver=solver, N=[16, 4, 4], L=[4., 3.], nu=0.1, dt=0.01, T=0.1, optimization=opt))
    else:
        d = P.DIM[solver]
        sim = P.setup(dict(solver=solver, N=[4, 4, 4][:d], L=[6., 6., 6.][:d], nu=0.1, dt=0.01, T=0.1, optimization=opt, precision=prec))
    return sim


def flat(args):
    out = []
    for a in args:
        if isinstance(a, np.ndarray):
            out.append(a)
        elif isinstance(a, (list, tuple)):
            out += [x for x in a if isinstance(x, np.ndarray)]
    return out


def calls(case, rec):
    prec = case['precision']
    solver = case['solver']
    names = [n for n, (s, _, _) in KERNELS.items() if (s == solver or (s is None and solver in ('NS', 'NS2D')))]
    res = {}
    for opt in ('',)+tuple(case['opts']):
        with sdns.Quiet():
            load(opt, prec, solver)
        for name in names:
            _, modname, attr = KERNELS[name]
            mod = importlib.import_module(modname)
            fn = getattr(mod, attr, None)
            if fn is None:
                rec.count('kernel_not_found')
                continue
            for t, shape in enumerate(case['shapes']):
                rng = np.random.default_rng(case['seed']+t)
                args = kernel_args(name, rng, prec, tuple(shape))
                before = [np.array(a, copy=True) for a in flat(args)]
                try:
                    out = fn(*args)
                except TypeError as e:
                    if opt == '':
                        rec.count('kernel_signature_changed')
                        res[(name, t)] = None
                        continue
                    if res.get((name, t)) is None:
                        continue
                    rec.violation('call-%s' % name, '%s: %s%s raises %r, the plain one does not' % (opt, name, tuple(shape), e))
                    continue
                o = out[0] if isinstance(out, tuple) else out
                values = [np.array(o)]+[np.array(a, copy=True) for a in flat(args)]
                if opt == '':
                    res[(name, t)] = values
                    rec.nontrivial = True
                    continue
                want = res.get((name, t))
                if want is None:
                    continue
                rec.count('paired_calls')
                rec.seen('kernel', [name, opt, prec, len(shape)])
                tol = 1e-12 if prec == 'double' else 1e-5
                rec.close('%s: result of %s%s' % (opt, name, tuple(shape)), values[0], want[0], tol, sig='call-%s' % name)
                for i, (x, y, b) in enumerate(zip(values[1:], want[1:], before)):
                    # arguments that the plain routine leaves alone are left alone; those it writes
                    # are scratch or results, and results are compared
                    if np.array_equal(y, b):
                        rec.check(np.array_equal(x, b), 'argument-%s' % name,
                                  '%s: %s%s changes argument %d, the plain one does not' % (opt, name, tuple(shape), i))
                    elif not scratch(name, i):
                        rec.close('%s: argument %d of %s%s' % (opt, i, name, tuple(shape)), x, y, tol, sig='call-%s' % name)


def scratch(name, i):
    """Work arrays whose content after the call is nobody's business."""
    return (name == 'RK4' and i in (1, 2, 3)) or (name == 'ForwardEuler' and i == 1) or (name.startswith('AB2') and i == 2)


def run_case(case, rec):
    if case['kind'] == 'calls':
        return calls(case, rec)
    return paired(case, rec)


def run(check, rng):
    q = check.tier == 'quick'
    cases = []
    # direct calls
    for prec in ('double', 'single'):
        for solver in ('NS', 'NS2D', 'Bq2D', 'KMM'):
            if solver == 'KMM' and prec == 'single':
                continue
            for rep in range(1 if q else 12):
                d = 2 if solver in ('NS2D', 'Bq2D') else 3
                shapes = [[rng.randint(1, 9) for _ in range(d)] for _ in range(12)]+[[1]*d, [2]+[1]*(d-1), [7, 5, 3][:d]]
                cases.append(dict(kind='calls', solver=solver, precision=prec, opts=list(OPTS), shapes=shapes,
                                  seed=rng.randrange(10**6), timeout=300))
    # paired runs
    n = 56 if q else 900
    ints = list(P.INTEGRATORS)
    for i, c in enumerate(P.combos(rng, lambda: P.random_case(rng), P.ALL, n)):
        c['kind'] = 'runs'
        c['opts'] = list(OPTS)
        c['integrator'] = ints[i % 5] if i % 3 else rng.choice(['RK4', 'ForwardEuler', 'AB2'])
        c['precision'] = 'double' if rng.random() < 0.6 else 'single'
        c['dt'] = P.stable_dt(c, 0.2)
        c['T'] = c['dt']*rng.choice([1, 2, 3, 2.5])
        c['source'] = rng.random() < 0.4
        if c['integrator'] == 'BS5_adaptive':
            c['TOL'] = 1e-3
        c['timeout'] = 300
        cases.append(c)
    for i in range(21 if q else 300):
        c = H.random_case(rng)
        c['solver'] = C.SOLVERS[i % 7]
        if C.is_rb(c['solver']):
            c['kappa'], c['force'] = 0.1, 0.0
        c.update(kind='runs', opts=list(OPTS), N=[rng.choice([16, 20]), rng.choice([4, 6, 7]), rng.choice([4, 5, 8])], dt=0.01, T=0.033)
        c['timeout'] = 300
        cases.append(c)
    check.run_serial(cases, flavour='all')


if __name__ == '__main__':
    ck = runner.Check('C06', 'checks.c06', flavour='all', rule=(
        'paired runs plain/Cython/Numba/Pythran over all solver, form and dealiasing combinations with random fields, meshes, integrators, '
        'precisions and sources, compared after every step; paired direct calls of every dispatched routine on random arrays of random shapes. '
        'Non-trivial: the plain implementation took a step or returned a result'),
        assumptions=['rounding differences stay below 1e-11 (double) / 3e-5 (single) of the largest value over at most 3 steps'])
    raise SystemExit(runner.main(ck, run))
