"""Set-up of the periodic solvers from a JSON case, shared by the checks."""
import numpy as np

from . import sdns
from .ref import Grid, random_field

MESH = {'NS': 'triplyperiodic', 'VV': 'triplyperiodic', 'MHD': 'triplyperiodic',
        'NS2D': 'doublyperiodic', 'Bq2D': 'doublyperiodic'}
DIM = {'NS': 3, 'VV': 3, 'MHD': 3, 'NS2D': 2, 'Bq2D': 2}
NCOMP = {'NS': 3, 'VV': 3, 'MHD': 6, 'NS2D': 2, 'Bq2D': 3}
FORMS = {'NS': ['Vortex', 'Standard', 'Divergence', 'Skewed'], 'VV': ['Vortex'],
         'MHD': ['Divergence'], 'NS2D': ['Vortex'], 'Bq2D': ['Vortex']}
PASS = ('nu', 'dt', 'T', 't', 'tstep', 'precision', 'optimization', 'mask_nyquist', 'decomposition',
        'dealias', 'convection', 'write_result', 'checkpoint', 'h5filename', 'filemode', 'make_profile',
        'verbose')


class Sim(object):
    pass


def setup(case, hooks=None, pre=None, extra=None):
    name = case['solver']
    mesh = MESH[name]
    p = {k: case[k] for k in PASS if k in case}
    p['N'] = list(case['N'])
    p['L'] = list(case['L'])
    p.setdefault('convection', FORMS[name][0])
    p.update(extra or {})
    args = []
    if 'TOL' in case:
        p['TOL'] = case['TOL']
    args += ['--integrator', case.get('integrator', 'RK4')]
    # N and L must not depend on argparse's own handling of lists
    args += [name]
    if name == 'MHD' and 'eta' in case:
        args += ['--eta', repr(case['eta'])]
    if name == 'Bq2D':
        for k in ('Ri', 'Pr'):
            if k in case:
                args += ['--' + k, repr(case[k])]
    s = Sim()
    s.sd, s.config, s.solver, s.context = sdns.fresh(mesh, p, args, hooks, pre)
    s.params = s.config.params
    s.case = case
    s.name = name
    s.grid = Grid(case['N'], case['L'], case.get('dealias', '2/3-rule'))
    s.T = s.context.T
    s.comm = s.solver.comm
    return s


def init_field(case, grid):
    """The initial condition named by the case, as a global spectral array."""
    name = case['solver']
    ic = case.get('init', {})
    rng = np.random.default_rng(ic.get('seed', 1))
    kind = ic.get('kind', 'full')
    amp = ic.get('amp', 1.0)
    mean = ic.get('mean', 0.3)
    d = DIM[name]
    kw = dict(amp=amp, kind=kind, kcut=ic.get('kcut'))
    if name in ('NS', 'NS2D'):
        return random_field(rng, grid, d, True, mean=mean, **kw)
    if name == 'VV':
        v = random_field(rng, grid, 3, True, mean=0.0, **kw)
        return v
    if name == 'MHD':
        u = random_field(rng, grid, 3, True, mean=mean, **kw)
        b = random_field(rng, grid, 3, True, mean=mean, **kw)
        return np.concatenate([u, b])
    u = random_field(rng, grid, 2, True, mean=mean, **kw)
    r = random_field(rng, grid, 1, False, mean=mean, **kw)
    return np.concatenate([u, r])


def lslice(sim, spectral=True):
    return tuple(sim.T.local_slice(spectral))


def put(sim, arr, glob, spectral=True):
    arr[...] = glob[(Ellipsis,) + lslice(sim, spectral)]


def gather(sim, arr, spectral=True):
    """Global array from the ranks' parts (returned on every rank)."""
    arr = np.array(arr)
    if sim.comm.Get_size() == 1:
        return arr
    shape = sim.T.global_shape(spectral)
    lead = arr.shape[:arr.ndim-len(shape)]
    parts = sim.comm.allgather((lslice(sim, spectral), arr))
    out = np.zeros(lead + tuple(shape), dtype=arr.dtype)
    for sl, a in parts:
        out[(Ellipsis,) + sl] = a
    return out


def ref_rhs(sim, u, source=0):
    """Independent right-hand side at the global state u."""
    g, p, name = sim.grid, sim.params, sim.name
    mask = bool(sim.case.get('mask_nyquist', True))
    nu = sim.case['nu']
    if name in ('NS', 'NS2D'):
        return g.rhs_ns(u, nu, sim.case.get('convection', 'Vortex'), mask, source)
    if name == 'VV':
        return g.rhs_vv(u, nu, mask, source)
    if name == 'MHD':
        return g.rhs_mhd(u, nu, sim.case.get('eta', 0.01), mask)
    return g.rhs_bq(u, nu, sim.case.get('Ri', 0.1), sim.case.get('Pr', 1.0), mask)


def quiet_file(sim):
    """No HDF5 file unless asked for (the run is about the flow)."""
    class NoFile(object):
        def update(self, *a, **k):
            pass

        def close(self):
            pass
    sim.context.hdf5file = NoFile()


def random_case(rng, solvers=('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'), big=False, kinds=('full', 'smooth', 'band')):
    name = rng.choice(list(solvers))
    d = DIM[name]
    choice = [6, 8, 10, 12, 16] if not big else [8, 12, 16, 20, 24]
    if d == 2:
        choice = [6, 8, 12, 16, 24, 32]
    odd = [7, 9]
    N = [rng.choice(choice) if rng.random() < 0.85 else rng.choice(odd) for _ in range(d)]
    L = [rng.choice([6.283185307179586, 6.283185307179586, 1.0, 3.0, 12.566370614359172,
                     round(rng.uniform(0.5, 15), 3)]) for _ in range(d)]
    c = dict(solver=name, N=N, L=L, dealias=rng.choice(['2/3-rule', '3/2-rule', 'None']),
             convection=rng.choice(FORMS[name]), nu=rng.choice([0.0, 1e-3, 0.01, 0.1]),
             mask_nyquist=rng.random() < 0.85,
             init=dict(seed=rng.randrange(10**6), kind=rng.choice(list(kinds)),
                       mean=rng.choice([0.0, 0.3, 0.3]), amp=rng.choice([0.3, 1.0, 3.0])))
    if name == 'MHD':
        c['eta'] = rng.choice([0.0, 0.005, 0.05])
    if name == 'Bq2D':
        c['Ri'] = rng.choice([0.0, 0.1, 0.7])
        c['Pr'] = rng.choice([0.7, 1.0, 7.0])
    return c


INTEGRATORS = ('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed', 'BS5_adaptive')


def stable_dt(case, cfl=0.1):
    kmax = max(np.pi*a/b for a, b in zip(case['N'], case['L']))
    amp = case['init'].get('amp', 1.0)
    return float(min(0.05, cfl/(kmax*amp+max(case['nu'], case.get('eta', 0), case['nu']/case.get('Pr', 1))*kmax**2)))


def velocity_hat(sim, u):
    """Velocity coefficients of a global state."""
    g = sim.grid
    if sim.name == 'VV':
        return g.velocity_from_vorticity(u)
    return u[:g.d]


def user_velocity(sim):
    """The velocity as the user gets it (global array)."""
    c = sim.context
    if sim.name == 'MHD':
        c.UB_hat.backward(c.UB)
        v = c.UB[:3]
    else:
        v = sim.solver.get_velocity(**c)
    return gather(sim, v, False)


def source(sim, u0, seed=7, amp=0.5):
    """A solenoidal constant source, put in the context where the solver has one."""
    if sim.name not in ('NS', 'NS2D', 'VV'):
        return 0
    rng = np.random.default_rng(sim.case['init'].get('seed', 1)+seed)
    src = random_field(rng, sim.grid, u0.shape[0], True, mean=0.2 if sim.name != 'VV' else 0, amp=amp)
    put(sim, sim.context.Source, src)
    return src


def defaults(rng, c, steps=(1, 2, 3), integrators=INTEGRATORS, cfl=0.1):
    c['integrator'] = rng.choice(list(integrators))
    c['dt'] = stable_dt(c, cfl)
    c['T'] = c['dt']*rng.choice(list(steps))
    return c


def combos(rng, make, want, n):
    """n cases: first those that go through the (solver, form, dealias) combinations, then random ones."""
    out = []
    todo = [w for w in want]
    while len(out) < n:
        c = make()
        if todo:
            s, f, d = todo[0]
            if c['solver'] != s:
                continue
            todo.pop(0)
            c['convection'], c['dealias'] = f, d
            if c['init']['kind'] == 'band':
                c['init']['kind'] = 'full'
        out.append(c)
    return out


ALL = [(s, f, d) for s in FORMS for f in FORMS[s] for d in ('2/3-rule', '3/2-rule', 'None')]
