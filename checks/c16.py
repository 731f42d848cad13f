"""C16: the configuration means what was set, and only that."""
import importlib
import json
import os

import numpy as np

from vlib import periodic as P, channel as C, chrun, runner, schemes, sdns
from vlib.ref import Grid

SOLVERS = {'triplyperiodic': ('NS', 'VV', 'MHD'), 'doublyperiodic': ('NS2D', 'Bq2D'),
           'channel': ('KMM', 'KMMr', 'KMMRK3', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB')}
BOX = ('L', 'M', 'N')
LENGTHS = {'2*pi': 2*np.pi, 'pi': np.pi, '4*pi': 4*np.pi, '3.5': 3.5, '1': 1.0, '2*pi/3': 2*np.pi/3}
FLOATS = ('nu', 'eta', 'Ri', 'Pr')


def parse(key, val):
    if key == 'L':
        return np.array([LENGTHS[str(v)] if str(v) in LENGTHS else float(v) for v in val])
    if key in BOX:
        return np.array([int(v) for v in val])
    return val


class Model(object):
    """What the parameters must be, after a history of settings."""

    def __init__(self, baseline):
        self.baseline = baseline
        self.defaults = {m: {} for m in SOLVERS}
        self.params = {}
        self.mesh = self.solver = None
        self.n_known = True

    def update(self, mesh, new):
        for k, v in new.items():
            self.defaults[mesh][k] = parse(k, v)

    def get_solver(self, mesh, solver, cli):
        v = dict(self.baseline[mesh][solver])
        v.update(self.defaults[mesh])
        for k, x in cli.items():
            v[k] = parse(k, x)
        if 'N' not in self.defaults[mesh]:
            if self.mesh is not None and self.mesh != mesh:
                self.params.pop('N', None)
                self.n_known = True
            elif 'N' in self.params:
                self.n_known = False
        else:
            self.n_known = True
        self.params.update(v)
        self.mesh, self.solver = mesh, solver

    def set(self, k, v):
        self.params[k] = parse(k, v)
        if k == 'N':
            self.n_known = True

    @property
    def N(self):
        return self.params['N'] if 'N' in self.params else 2**self.params['M']


def read_back(rec, params, m, where):
    for k, want in m.params.items():
        if k == 'N' and not m.n_known or k == 'planner_effort' or k == 'solver' and want is None:
            continue
        try:
            a, b = getattr(params, k), params[k]
        except (AttributeError, KeyError) as e:
            rec.violation('missing parameter', '%s: %s was set, and is missing (%r)' % (where, k, e))
            continue
        single = m.params.get('precision') == 'single' and k in FLOATS
        for how, got in (('attribute', a), ('key', b)):
            rec.count('reads')
            if isinstance(want, np.ndarray):
                ok = np.shape(got) == want.shape and np.array_equal(got, want)
            elif single:
                ok = abs(float(got)-want) <= 1e-6*abs(want)
            else:
                ok = got == want
            rec.check(ok, 'value', '%s: %s read as %s is %r, it was set to %r' % (where, k, how, got, want), key=k)
        rec.check(k in params, 'in', '%s: %s is not "in" the parameters' % (where, k))
        if single:
            rec.check(np.asarray(a).dtype == np.float32, 'single', '%s in a single precision run is %r' % (k, type(a)))
    if 'M' in m.params and m.n_known:
        n = np.asarray(params.N)
        rec.check(np.array_equal(n, m.N), 'mesh size', '%s: mesh size is %r, expected %r' % (where, n, m.N))
        if 'L' in m.params:
            rec.close('dx', params.dx, m.params['L']/m.N, 1e-14, sig='dx')


def in_place(rec, params, m, key):
    if key not in m.params:
        return
    v = getattr(params, key)
    try:
        v[0] = 77
    except (ValueError, TypeError):
        rec.count('refused_in_place')
    w = params[key]
    try:
        w[0] = 77
    except (ValueError, TypeError):
        rec.count('refused_in_place')
    rec.check(np.array_equal(getattr(params, key), m.params[key]), 'in place', '%s was changed in place' % key)


def refused(rec, sd, mesh, argv, params):
    before = {k: np.array(v) if k in BOX else v for k, v in params.items()}
    err = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        sd.get_solver(mesh=mesh, parse_args=list(argv))
    except (SystemExit, Exception):     # refused, in whatever way
        rec.count('refused')
        ok = True
    else:
        ok = False
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(null)
    rec.check(ok, 'accepted', 'get_solver accepted %s for %s' % (argv, mesh))
    return before


def run_periodic(rec, sim, m, mesh, seed):
    p = m.params
    name = m.solver
    N, L = [int(x) for x in m.N], [float(x) for x in p['L']]
    case = dict(solver=name, N=N, L=L, nu=p['nu'], dealias=p['dealias'], convection=p['convection'],
                mask_nyquist=p['mask_nyquist'], init=dict(seed=seed, kind='full', amp=0.3))
    for k in ('eta', 'Ri', 'Pr'):
        if k in p:
            case[k] = p[k]
    sim.case, sim.name, sim.grid, sim.T = case, name, Grid(N, L, p['dealias']), sim.context.T
    rec.check(tuple(sim.T.global_shape()) == tuple(N), 'context mesh', 'the context has mesh %s, set was %s' % (sim.T.global_shape(), N))
    P.quiet_file(sim)
    u = P.init_field(case, sim.grid)
    P.put(sim, sim.context.u, u)
    log = []
    sim.solver.update = lambda c: log.append((float(sim.params.t), int(sim.params.tstep), P.gather(sim, c.u)))
    T0, dt = p['T'], p['dt']
    m.set('T', p['t']+2*dt)
    sim.params.T = m.params['T']
    sim.sd.solve(sim.solver, sim.context)
    sim.solver.update = lambda c: None
    f = lambda v: P.ref_rhs(sim, v)
    t, fp = p['t'], None
    rec.check(len(log) == 2 or p['integrator'] == 'BS5_adaptive', 'steps', '%d steps to t+2dt' % len(log))
    for t1, n, new in log:
        d = t1-t
        fu = f(u)
        kind = p['integrator']
        if kind == 'RK4':
            want = schemes.rk4(f, u, d)
        elif kind == 'ForwardEuler':
            want = u+d*fu
        elif kind == 'AB2':
            want = u+d*fu if fp is None else u+d*(1.5*fu-0.5*fp)
        else:
            want = schemes.bs5(f, u, d)[0]
        if kind != 'BS5_adaptive':
            rec.check(abs(d-dt) <= 1e-12*max(1, abs(t1)), 'dt used', 'dt=%r was set, the step took %r' % (dt, d))
        if p['mask_nyquist'] or kind in ('ForwardEuler', 'AB2') and fp is None:
            # What the Nyquist modes of one stage do in the next is not specified
            cut = lambda v: v if p['mask_nyquist'] else np.where(sim.grid.nonyq, v, 0)
            rec.close('step with the parameters set (%s, %s)' % (name, kind), cut(new), cut(want), 1e-10,
                      scale=d*np.abs(fu).max()+np.abs(u).max(), sig='run uses')
            rec.count('steps_compared')
        nyq = ~np.broadcast_to(sim.grid.nonyq, np.shape(new)[1:]).astype(bool)
        if not p['mask_nyquist'] and fp is None and nyq.any() and np.abs(want[..., nyq]).max() > 1e-6*d*np.abs(fu).max():
            # The convection of a generic field reaches the Nyquist modes
            rec.check(np.abs(new[..., nyq]).max() > 0, 'run uses',
                      'mask_nyquist=False was set (%s, %s), the Nyquist modes were eliminated' % (name, kind))
            rec.count('nyquist_kept')
        u, t, fp = new, t1, fu
    m.params['t'], m.params['tstep'] = float(sim.params.t), p['tstep']+len(log)
    rec.check(abs(m.params['t']-(p['t'] if not log else t)) < 1e-12, 'time', 'time')
    m.params['t'] = sim.params.t
    rec.count('runs')
    sim.params.T = T0
    m.params['T'] = T0


def run_channel(rec, sim, m, seed):
    p = m.params
    name = m.solver
    n, l = [int(x) for x in m.N], [float(x) for x in p['L']]
    if name == 'KMMr':
        N, L = [n[2], n[0], n[1]], [l[0], l[1]]
    else:
        N, L = n, l[1:]
    case = dict(solver=name, N=N, L=L, nu=p['nu'], dt=p['dt'], dealias=p['dealias'], convection=p['convection'],
                mask_nyquist=p['mask_nyquist'], quad=p['Dquad'], force=0.0, init=dict(seed=seed, kmax=1, amp=0.1))
    if 'kappa' in p:
        case['kappa'] = p['kappa']
    sim.case, sim.name, sim.axis = case, name, 2 if name == 'KMMr' else 0
    c = sim.context
    rec.check(tuple(c.FST.global_shape()) == tuple(n), 'context mesh', 'the context has mesh %s, set was %s' % (c.FST.global_shape(), n))
    x = np.sort(C.points(sim))
    k = np.arange(len(x))
    want = -np.cos(np.pi*(k+0.5)/len(x)) if p['Dquad'] == 'GC' else -np.cos(np.pi*k/(len(x)-1))
    rec.close('points of quadrature %s' % p['Dquad'], x, want, 1e-12, sig='context quadrature')
    ch = C.reference(case)
    sim.ch, sim.init = ch, chrun.initial(case, ch)
    C.initialize(sim, ch, sim.init[0], sim.init[1], None)
    T0 = p['T']
    sim.params.T = p['t']+2.3*p['dt']
    got = []
    sim.solver.update = lambda ctx: got.append(np.array(C.velocity(sim)))
    c.hdf5file = C.NoFile()
    sim.sd.solve(sim.solver, c)
    sim.solver.update = lambda ctx: None
    rec.check(len(got) == 2, 'steps', '%d steps to t+2.3dt' % len(got))
    if p['mask_nyquist']:
        for g, w in zip(got, states(sim, 2)):
            w = C.physical(sim, ch, w)
            rec.close('step with the parameters set (%s)' % name, g, w, 1e-4,
                      scale=np.abs(w).max(), sig='run uses channel')
    m.params['t'], m.params['tstep'] = sim.params.t, p['tstep']+len(got)
    sim.params.T = T0
    rec.count('runs')


def states(sim, n):
    out = chrun.reference_run(sim, n)
    return [s[0] if isinstance(s, tuple) else s for s in out][-n:]


def file_name(rec, sim, m):
    """h5filename names the files of a run."""
    p = m.params
    P.put(sim, sim.context.u, np.zeros(np.shape(sim.context.u)))
    sim.params.T = p['t']+p['dt']
    sim.params.write_result = sim.params.checkpoint = 1
    sim.sd.solve(sim.solver, sim.context)
    files = [f for f in os.listdir('.') if f.endswith('.h5')]
    rec.check(files and all(f.startswith(p['h5filename']) for f in files), 'h5filename ignored',
              'h5filename=%r was set, the files are %s' % (p['h5filename'], sorted(files)))


def run_case(case, rec):
    sdns.purge()
    sd = importlib.import_module('spectralDNS')
    config = sd.config
    for mesh in SOLVERS:
        config.update(dict(verbose=False), mesh)
    base = {mesh: {s: {k: parse(k, v) for k, v in vars(getattr(config, mesh).parse_args([s])).items()} for s in SOLVERS[mesh]}
            for mesh in SOLVERS}
    m = Model(base)
    for mesh in SOLVERS:
        m.update(mesh, dict(verbose=False))
    config.update(dict(kappa=0.03), 'channel')
    m.update('channel', dict(kappa=0.03))
    params = config.params
    sim = P.Sim()
    sim.sd, sim.config, sim.params = sd, config, params
    hist = []
    plans, leftover = {}, set()
    for i, op in enumerate(case['ops']):
        where = 'after %s' % (hist[-3:]+[op],)
        hist.append(op)
        rec.count('ops')
        if op[0] == 'update':
            config.update({k: (np.array(v) if k == 'L' and i % 2 and not isinstance(v[0], str) else v) for k, v in op[2].items()}, op[1])
            m.update(op[1], op[2])
        elif op[0] == 'solver':
            sim.solver = sd.get_solver(mesh=op[1], parse_args=[str(x) for x in op[3]])
            rec.check(sim.solver.__name__ == 'spectralDNS.solvers.'+op[2], 'solver module', 'asked for %s, got %s' % (op[2], sim.solver.__name__))
            m.get_solver(op[1], op[2], op[4])
            cli = op[5] if len(op) > 5 else {}
            for k in ('fft', 'dct'):
                # whether what was set for another mesh, or on an earlier command line, applies is not specified
                if k in cli or k in plans.get(op[1], {}) or not plans and not leftover:
                    got, want = params.planner_effort[k], cli.get(k, plans.get(op[1], {}).get(k, 'FFTW_MEASURE'))
                    rec.check(got == want, 'planner effort', '%s: planner effort for %s is %r, set was %r' % (where, k, got, want))
                    rec.count('planner_effort')
            for k in cli:
                leftover.add(k)
                for d in plans.values():
                    d.pop(k, None)
            rec.check(getattr(params, 'mesh', op[1]) == op[1], 'mesh', 'asked for mesh %s, params.mesh is %r' % (op[1], getattr(params, 'mesh', None)))
        elif op[0] == 'plans':
            config.update(dict(planner_effort=dict(op[2])), op[1])
            for d in plans.values():
                for k in op[2]:
                    d.pop(k, None)
            plans.setdefault(op[1], {}).update(op[2])
        elif op[0] == 'set':
            if op[3] == 'attr':
                setattr(params, op[1], op[2])
            elif op[3] == 'key':
                params[op[1]] = op[2]
            else:
                params.update({op[1]: op[2]})
            m.set(op[1], op[2])
        elif op[0] == 'inplace':
            in_place(rec, params, m, op[1])
        elif op[0] == 'missing':
            if op[1] in m.params:
                continue
            try:
                v = getattr(params, op[1])
                rec.violation('missing reported', 'a parameter that was never set reads as %r' % (v,))
            except AttributeError:
                rec.count('missing')
            try:
                v = params[op[1]]
                rec.violation('missing reported', 'a parameter that was never set reads as %r' % (v,))
            except KeyError:
                rec.count('missing')
            rec.check(op[1] not in params and getattr(params, op[1], None) is None and params.get(op[1], 5) == 5,
                      'missing reported', 'a parameter that was never set is "in"')
        elif op[0] == 'bad':
            refused(rec, sd, op[1], op[2], params)
        elif op[0] == 'run':
            if not m.n_known or m.mesh is None or m.params.get('precision') != 'double':
                continue
            sim.context = sim.solver.get_context()
            sim.comm = sim.solver.comm
            if m.mesh == 'channel':
                run_channel(rec, sim, m, op[1])
            else:
                run_periodic(rec, sim, m, m.mesh, op[1])
        elif op[0] == 'file':
            sim.context = sim.solver.get_context()
            sim.comm, sim.T = sim.solver.comm, sim.context.T
            file_name(rec, sim, m)
            return
        read_back(rec, params, m, where)
    rec.seen('history', [o[0] for o in case['ops']])
    rec.nontrivial = rec.obs.get('reads', 0) > 20
    rec.sample = dict(ops=[o[:3] for o in case['ops'][:6]])


def val(rng, mesh, key, dim):
    if mesh == 'channel' and key == 'nu':
        return rng.choice([0.1, 0.15, 0.2, 0.3])        # resolved, see C13
    if mesh == 'channel' and key == 'dt':
        return rng.choice([0.05, 0.06, 0.07, 0.1])
    if key == 'nu':
        return rng.choice([0.0001, 0.003, 0.01, 0.02, 0.0123456789])
    if key == 'eta':
        return rng.choice([0.0, 0.001, 0.007, 0.02, 0.00123456789, 1e-6])
    if key == 'Ri':
        return rng.choice([0.0, 0.167, 0.5, 1/6, -0.2])
    if key == 'Pr':
        return rng.choice([0.7, 1.5, 12.0, 1/3])
    if key == 'kappa':
        return rng.choice([0.01, 0.05])
    if key == 'dt':
        return rng.choice([0.001, 0.002, 0.004, 0.0035, 0.00312345678])
    if key in ('T', 't'):
        return rng.choice([0.0, 0.5, 1.25, 3.0, 1/3])
    if key == 'tstep':
        return rng.choice([0, 3, 100])
    if key in ('write_result', 'checkpoint'):
        return rng.choice([10**7, 10**8, 31415926])
    if key == 'filemode':
        return rng.choice(['w', 'a'])
    if key == 'dealias':
        return rng.choice(['2/3-rule', '3/2-rule', 'None'])
    if key == 'decomposition':
        return rng.choice(['slab', 'pencil']) if mesh != 'doublyperiodic' else 'slab'
    if key == 'ntol':
        return rng.choice([3, 7, 10])
    if key == 'h5filename':
        return rng.choice(['a', 'b', 'results'])
    if key in ('verbose', 'mask_nyquist'):
        return rng.random() < 0.5 if key != 'verbose' else False
    if key == 'TOL':
        return rng.choice([1e-3, 1e-5, 1e-9])
    if key == 'integrator':
        return rng.choice(P.INTEGRATORS)
    if key == 'convection':
        return rng.choice(chrun.FORMS if mesh == 'channel' else
                          ['Vortex'] if mesh == 'doublyperiodic' else P.FORMS['NS'])
    if key == 'L':
        if rng.random() < 0.5:
            v = [rng.choice(sorted(LENGTHS)) for _ in range(dim)]
        else:
            v = [rng.uniform(1, 8) for _ in range(dim)]
        if mesh == 'channel':
            v = [2, 3.5, 3.0]
            rng.shuffle(v[1:])
        return v
    if key == 'M':
        return [rng.choice([3, 4]) for _ in range(dim)] if mesh != 'channel' else [5, 4, 4]   # the 2/3-rule of shenfun is void for N=4
    if key == 'N':
        return [rng.choice([6, 8, 10, 12]) for _ in range(dim)] if mesh != 'channel' else [rng.choice([36, 40]), 16, rng.choice([15, 16])]
    if key == 'precision':
        return rng.choice(['single', 'double'])
    raise KeyError(key)


COMMON = ('nu', 'dt', 'T', 't', 'tstep', 'write_result', 'checkpoint', 'filemode', 'dealias', 'decomposition', 'ntol',
          'h5filename', 'mask_nyquist')
EXTRA = {'triplyperiodic': ('convection', 'L', 'M', 'N', 'TOL', 'integrator', 'eta'),
         'doublyperiodic': ('L', 'M', 'N', 'TOL', 'integrator', 'Ri', 'Pr'),
         'channel': ('convection', 'L', 'M', 'N', 'kappa')}


def argv(rng, mesh, solver, cli):
    pre, post = [], []
    for k, v in cli.items():
        a = pre
        if k in ('eta', 'Ri', 'Pr'):
            a = post
        if k in ('verbose', 'mask_nyquist'):
            pre.append('--%s%s' % ('' if v else 'no-', k))
        elif k in BOX:
            a += ['--'+k]+[str(x) for x in v]
        else:
            a += ['--'+k, str(v)] if not isinstance(v, float) else ['--'+k, repr(v)]
    return pre+[solver]+post


BAD = [('triplyperiodic', ['NS2D']), ('doublyperiodic', ['NS']), ('channel', ['NS']), ('triplyperiodic', ['--precision', 'half', 'NS']),
       ('triplyperiodic', ['--dealias', '2/3', 'NS']), ('triplyperiodic', ['--convection', 'Skew', 'NS']),
       ('channel', ['--convection', 'Skewed', 'KMM']), ('channel', ['--Dquad', 'GG', 'KMM']), ('channel', ['--eta', '3', 'KMM']),
       ('doublyperiodic', ['--convection', 'V', 'NS2D']), ('doublyperiodic', ['--convection', 'Standard', 'NS2D']),
       ('triplyperiodic', ['--integrator', 'RK3', 'NS']), ('triplyperiodic', ['--M', '5', '5', 'NS']),
       ('doublyperiodic', ['NS2D', '--Ri', '1']), ('triplyperiodic', ['--nu', 'abc', 'NS']), ('triplyperiodic', ['--filemode', 'x', 'NS']),
       ('triplyperiodic', ['--decomposition', 'brick', 'NS']), ('triplyperiodic', ['NS', '--eta', '0.1']), ('triplyperiodic', ['--tstep', '1.5', 'NS']),
       ('channel', ['KMM', '--integrator', 'RK4']), ('triplyperiodic', ['--nosuch', '1', 'NS']), ('channel', ['KMM', '--integrator', 'implicitRK3'])]


def history(rng, channel_runs):
    ops = []
    mesh = None
    rev = rng.random() < 0.2        # the wall-normal axis is the last one
    meshes = list(SOLVERS)
    prec = 'double'
    n = rng.choice([6, 10, 14])
    bad = 0

    def turn(d):
        for k in BOX:
            if rev and k in d:
                d[k] = d[k][::-1]
    for _ in range(n):
        r = rng.random()
        if mesh is None or r < 0.3:
            mm = rng.choice(meshes)
            if mesh is not None and rng.random() < 0.5:
                mm = mesh
            d = 2 if mm == 'doublyperiodic' else 3
            up = rng.random() < 0.6
            if up or mesh is None and rng.random() < 0.5:
                keys = [k for k in COMMON+EXTRA[mm] if rng.random() < 0.25]
                new = {k: val(rng, mm, k, d) for k in keys}
                if mm == 'channel':
                    new['kappa'] = val(rng, mm, 'kappa', d)
                    new['Dquad'] = new['Bquad'] = new['Nquad'] = rng.choice(['GC', 'GL'])
                    turn(new)
                if new:
                    ops.append(['update', mm, new])
            if not up or mesh is None:
                s = rng.choice(SOLVERS[mm]) if mm != 'channel' else 'KMMr' if rev else rng.choice([x for x in SOLVERS[mm] if x != 'KMMr'])
                keys = [k for k in COMMON+tuple(x for x in EXTRA[mm] if x not in ('N', 'kappa', 'eta', 'Ri', 'Pr')) if rng.random() < 0.15]
                keys += [k for k in ('eta',) if s == 'MHD' and rng.random() < 0.3]
                keys += [k for k in ('Ri', 'Pr') if s == 'Bq2D' and rng.random() < 0.3]
                if mm == 'channel' and rng.random() < 0.3:
                    keys.append('Dquad')
                cli = {k: (val(rng, mm, k, d) if k != 'Dquad' else None) for k in keys}
                if 'Dquad' in cli:
                    cli['Dquad'] = cli['Bquad'] = rng.choice(['GC', 'GL'])
                if s == 'MHD':
                    cli['convection'] = 'Divergence'
                elif s == 'VV':
                    cli['convection'] = 'Vortex'
                if mm == 'channel':
                    cli['M'] = [5, 4, 4]
                    turn(cli)
                    cli['nu'] = val(rng, mm, 'nu', d)
                elif 'M' not in cli:
                    cli['M'] = val(rng, mm, 'M', d)
                if 'dt' not in cli:
                    cli['dt'] = val(rng, mm, 'dt', d)
                ops.append(['solver', mm, s, argv(rng, mm, s, cli), cli])
                mesh = mm
        elif r < 0.55:
            d = 2 if mesh == 'doublyperiodic' else 3
            k = rng.choice([k for k in COMMON+EXTRA[mesh] if k not in ('integrator', 'convection', 'eta', 'Ri', 'Pr', 'kappa')])
            v = val(rng, mesh, k, d)
            if rev and mesh == 'channel' and k in BOX:
                v = v[::-1]
            ops.append(['set', k, v, rng.choice(['attr', 'key', 'update'])])
        elif r < 0.62:
            ops.append(['inplace', rng.choice(BOX)])
        elif r < 0.68:
            ops.append(['missing', rng.choice(['foo', 'dtt', 'NN', 'Nu', 'l'])])
        elif r < 0.72:
            bad += 1
            if bad < 3:
                ops.append(['bad']+list(rng.choice([b for b in BAD if b[1][:4] != ['--M', '5', '5', 'NS']])))
        elif mesh is not None and (mesh != 'channel' or channel_runs):
            ops.append(['run', rng.randrange(10**6)])
    if not any(o[0] == 'run' for o in ops) and mesh is not None and (mesh != 'channel' or channel_runs):
        ops.append(['run', 5])
    return ops


def with_plans(rng, case):
    """Planner efforts, from the application and from the command line."""
    some = lambda: {k: rng.choice(['FFTW_ESTIMATE', 'FFTW_MEASURE']) for k in rng.sample(['fft', 'dct'], rng.choice([1, 2]))}
    ops = []
    for op in case['ops']:
        if op[0] == 'solver':
            if rng.random() < 0.4:
                ops.append(['plans', op[1], some()])
            if rng.random() < 0.4:
                v = some()
                op = op[:3]+[['--planner_effort', json.dumps(v)]+op[3], op[4], v]
        ops.append(op)
    return dict(case, ops=ops)


def run(check, rng):
    n = 150 if check.tier == 'quick' else 2500
    cases = [dict(ops=history(rng, False)) for _ in range(n)]
    cases += [dict(ops=[['missing', 'M'], ['missing', 'L'], ['bad']+list(b)]) for b in BAD]
    cases.append(dict(kind='precision', ops=[['update', 'triplyperiodic', dict(nu=0.1, precision='single')],
                                             ['solver', 'triplyperiodic', 'NS', ['NS'], {}], ['set', 'precision', 'double', 'attr'],
                                             ['set', 'precision', 'single', 'key'], ['set', 'nu', 0.3, 'attr']]))
    # arguments of a solver itself, set to nothing and set again
    for mesh, s, keys, low in (('doublyperiodic', 'Bq2D', ('Ri', 'Pr'), dict(Ri=0.0)), ('triplyperiodic', 'MHD', ('eta',), dict(eta=0.0))):
        d = 2 if mesh == 'doublyperiodic' else 3
        up = lambda: ['update', mesh, dict({k: val(rng, mesh, k, d) or 0.3 for k in keys}, M=[3]*d, dt=0.002, convection='Divergence' if s == 'MHD' else 'Vortex')]
        get = ['solver', mesh, s, [s], {}]
        for mid in ([['update', mesh, low]], [['update', mesh, low], get], [['update', mesh, low], get, ['run', 3]]):
            cases.append(dict(kind='zero', ops=[up()]+mid+[up(), get, ['run', 4]]))
    cases.append(dict(kind='file', ops=[['update', 'triplyperiodic', dict(h5filename='mine', M=[3, 3, 3])],
                                        ['solver', 'triplyperiodic', 'NS', ['NS'], {}], ['file']]))
    ch = []
    while len(ch) < (32 if check.tier == 'quick' else 400):
        h = history(rng, True)
        if any(o[0] == 'solver' and o[1] == 'channel' for o in h):
            ch.append(dict(ops=h))
    cases = [with_plans(rng, c) if 'kind' not in c and rng.random() < 0.5 else c for c in cases]
    check.run_serial(cases+ch, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C16', 'checks.c16', rule=(
        'random histories of application defaults, command lines, settings by attribute, key and update, in-place writes, illegal '
        'choices, reads of missing parameters, and two-step runs compared with a reference that uses the values the model holds. '
        'Non-trivial: more than 20 values read back'),
        assumptions=['initial defaults are read from the parsers', 'M set after N leaves N in force (as documented)'])
    raise SystemExit(runner.main(ck, run))
