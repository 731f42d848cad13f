"""Set-up of the channel solvers from a JSON case."""
import numpy as np

from . import sdns
from . import refchannel as R

SOLVERS = ('KMM', 'KMMr', 'KMMRK3', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB')
PASS = ('nu', 'dt', 'T', 't', 'tstep', 'mask_nyquist', 'decomposition', 'dealias', 'convection',
        'write_result', 'checkpoint', 'h5filename', 'filemode', 'optimization', 'verbose', 'make_profile')


class Sim(object):
    pass


def is_rb(name):
    return name.endswith('_RB')


def is_rk3(name):
    return 'RK3' in name


def setup(case, hooks=None, extra=None):
    """N is given as (Nx, Ny, Nz) with x wall-normal, L as (Ly, Lz)."""
    name = case['solver']
    p = {k: case[k] for k in PASS if k in case}
    nx, ny, nz = case['N']
    ly, lz = case['L']
    if name == 'KMMr':
        p['N'], p['L'] = [ny, nz, nx], [ly, lz, 2]
    else:
        p['N'], p['L'] = [nx, ny, nz], [2, ly, lz]
    q = case.get('quad', 'GC')
    p.update(Dquad=q, Bquad=q, Nquad=q)
    if is_rb(name):
        p['kappa'] = case['kappa']
    p.update(extra or {})
    s = Sim()
    s.sd, s.config, s.solver, s.context = sdns.fresh('channel', p, [name], hooks)
    s.params = s.config.params
    s.case, s.name = case, name
    s.comm = s.solver.comm
    s.axis = 2 if name == 'KMMr' else 0
    return s


def reference(case, Mx=None):
    """The reference channel for a case."""
    name = case['solver']
    return R.Channel(Mx or max(32, case['N'][0]+8), tuple(case['N'][1:]), tuple(case['L']), case['nu'],
                     case['dt'], 'RK3' if is_rk3(name) else 'AB2', case.get('dealias', '3/2-rule'),
                     case.get('mask_nyquist', True), case.get('force', 0.0), case.get('kappa'))


def to_solver(sim, q):
    """(…, x, y, z) component-first (u,v,w) array -> the solver's axes and component order."""
    if sim.axis == 2:
        if q.ndim == 4:
            q = q[[1, 2, 0]]
        return np.moveaxis(q, -3, -1)
    return q


def from_solver(sim, q):
    q = np.asarray(q)
    if sim.axis == 2:
        q = np.moveaxis(q, -1, -3)
        if q.ndim == 4:
            q = q[[2, 0, 1]]
    return q


def points(sim):
    """Global wall-normal points of the solver."""
    return np.asarray(sim.context.FST.mesh()[sim.axis]).ravel() if sim.comm.Get_size() == 1 else \
        np.asarray(sim.context.FST.bases[sim.axis].points_and_weights()[0]).ravel()


def physical(sim, ch, uh):
    """Reference spectral state -> physical values on the solver's full grid (reference axes)."""
    B = R.interp(points(sim), ch.x)
    u = ch.bck(uh)
    return np.moveaxis(np.tensordot(B, u, (1, u.ndim-3)), 0, u.ndim-3)


def local(sim, q, space=None):
    sl = tuple((space or sim.context.FST).local_slice(False))
    return q[(Ellipsis,)+sl]


def initialize(sim, ch, uh, th=None, prev=None):
    """Puts a state (and, for AB2, the convection of the previous state) into the context."""
    c, solver = sim.context, sim.solver

    def load(state):
        c.U[:] = local(sim, to_solver(sim, physical(sim, ch, state)))
        solver.set_velocity(**c)
        if 'g' in c:
            K, U = c.K, c.U_hat
            if sim.axis == 2:
                c.g[:] = 1j*K[0]*U[1]-1j*K[1]*U[0]
            else:
                c.g[:] = 1j*K[1]*U[2]-1j*K[2]*U[1]
    if not is_rk3(sim.name):
        load(uh if prev is None else prev)
        c.H_hat1[:] = solver.get_convection(**c)
    load(uh)
    if 'U_hat0' in c:
        c.U_hat0[:] = c.U_hat
    if 'UP_hat0' in c:
        c.UP_hat0[:] = c.UP_hat
    c.Source[:] = 0
    c.Sk[:] = 0
    f = sim.case.get('force', 0.0)
    if f:
        comp = 0 if sim.axis == 2 else 1
        c.Source[comp] = -f
        c.Sk[comp] = c.FST.scalar_product(c.Source[comp], c.Sk[comp])
        if sim.axis == 2:
            c.Sk[comp, 0, 0, -2:] = 0
        else:
            c.Sk[comp, -2:, 0, 0] = 0
    if th is not None:
        c.phi[:] = local(sim, physical(sim, ch, th))
        c.phi_hat = c.phi.forward(c.phi_hat)
        if 'phi_hat0' in c:
            c.phi_hat0[:] = c.phi_hat
            c.phi_hat1[:] = c.phi_hat


def velocity(sim):
    return from_solver(sim, sim.solver.get_velocity(**sim.context))


def temperature(sim):
    c = sim.context
    c.phi_hat.backward(c.phi)
    return np.array(c.phi)


class NoFile(object):
    def update(self, *a, **k):
        pass

    def close(self):
        pass
