"""One process group of a history: starts or restarts a run, records every step on disk, is killed or not.

python -m vlib.phase SPEC.json   (under mpirun for several ranks)

SPEC: case        solver configuration (periodic or channel)
      T           end time
      files       {write_result, checkpoint, h5filename, filemode} or null
      restart     name of a checkpoint file to continue from, or null
      log         directory for the recorded steps
      kill        {step, rank}: create the kill file in the update of that step
      crash       {step, when}: SIGKILL of every rank, 'update' or 'end' of that step
"""
import json
import os
import signal
import sys

import numpy as np

from vlib import channel as C, chrun as H, periodic as P


def gather(comm, space, spectral, arr):
    arr = np.array(arr)
    shape = tuple(space.global_shape(spectral))[-3 if arr.ndim > 2 else -2:]
    sl = tuple(space.local_slice(spectral))
    lead = arr.shape[:arr.ndim-len(shape)]
    parts = comm.gather((sl, arr), root=0)
    if comm.Get_rank():
        return None
    out = np.zeros(lead+shape, dtype=arr.dtype)
    for s, a in parts:
        out[(Ellipsis,)+s[-len(shape):]] = a
    return out


def load(sim, filename):
    """Restart the way the demos do it: data of the checkpoint, then what follows from them."""
    import h5py
    c, comm = sim.context, sim.comm
    with h5py.File(filename, 'r', driver='core', backing_store=False) as f:
        sim.params.t = float(f.attrs['t'])
        sim.params.tstep = int(f.attrs['tstep'])
        if sim.name in C.SOLVERS:
            sl = (Ellipsis,)+tuple(c.FST.local_slice(True))
            up = sim.name.startswith('Coupled')
            name = 'UP' if up else 'U'

            def put(level):
                d = f['%s/3D/%s' % (name, level)][()][sl]
                (c.UP_hat if up else c.U_hat)[:] = d
                if 'g' in c:
                    K, U = c.K, c.U_hat
                    if sim.axis == 2:
                        c.g[:] = 1j*K[0]*U[1]-1j*K[1]*U[0]
                    else:
                        c.g[:] = 1j*K[1]*U[2]-1j*K[2]*U[1]
            if not C.is_rk3(sim.name):
                put('1')
                c.H_hat1[:] = sim.solver.get_convection(**c)
            put('0')
            if 'UP_hat0' in c:
                c.UP_hat0[:] = c.UP_hat
            elif 'U_hat0' in c:
                c.U_hat0[:] = c.U_hat
            if C.is_rb(sim.name):
                c.phi_hat[:] = f['phi/3D/0'][()][sl]
                if 'phi_hat0' in c:
                    c.phi_hat0[:] = c.phi_hat
                    c.phi_hat1[:] = f['phi/3D/1'][()][sl]
        else:
            name = {'NS': 'U', 'NS2D': 'U', 'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'Ur'}[sim.name]
            d = f['%s/%dD/0' % (name, P.DIM[sim.name])][()]
            c.u[:] = d[(Ellipsis,)+tuple(sim.T.local_slice(True))]


def main(spec):
    case = dict(spec['case'], T=spec['T'])
    extra = dict(spec['files'] or {})
    channel = case['solver'] in C.SOLVERS
    if channel:
        sim = C.setup(case, extra=extra)
        sim.ch = C.reference(case)
        sim.init = H.initial(case, sim.ch)
        C.initialize(sim, sim.ch, *sim.init)      # also sets the forcing
    else:
        sim = P.setup(case, extra=extra)
        u0 = P.init_field(case, sim.grid)
        if case.get('source'):
            P.source(sim, u0)
        P.put(sim, sim.context.u, u0)
    c, comm = sim.context, sim.comm
    if spec['restart']:
        load(sim, spec['restart'])
    if spec['files'] is None:
        c.hdf5file = C.NoFile()
    else:
        c.hdf5file.filename = extra['h5filename']
    log = spec['log']
    os.makedirs(log, exist_ok=True)

    def snapshot():
        d = {}
        if channel:
            space = c.FST
            d['c:'+('UP' if 'UP_hat' in c else 'U')] = gather(comm, space, True, c.UP_hat if 'UP_hat' in c else c.U_hat)
            v = np.array(sim.solver.get_velocity(**c))
            for i in range(3):
                d['w:U%d' % i] = gather(comm, space, False, v[i])
            if C.is_rb(sim.name):
                d['c:phi'] = gather(comm, space, True, c.phi_hat)
                d['w:phi'] = gather(comm, space, False, C.temperature(sim))
        else:
            u = gather(comm, sim.T, True, c.u)
            name = {'NS': 'U', 'NS2D': 'U', 'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'Ur'}[sim.name]
            d['c:'+name] = u
            p = gather(comm, sim.T, False, sim.solver.get_pressure(**c)) if sim.name in ('NS', 'NS2D') else None
            if comm.Get_rank() == 0:
                w = sim.grid.bck(u)
                wn = {'NS': 'U', 'NS2D': 'U', 'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'UR'}[sim.name]
                for i in range(w.shape[0]):
                    d['w:%s%d' % (wn, i)] = w[i]
                if sim.name == 'VV':
                    v = sim.grid.bck(P.velocity_hat(sim, u))
                    for i in range(3):
                        d['w:U%d' % i] = v[i]
                if p is not None:
                    d['w:P'] = p
        return d

    def physical():
        out = []
        for v in getattr(c.hdf5file, 'results', {}).get('data', {}).values():
            for a in v:
                out.append(a[0] if isinstance(a, (list, tuple)) else a)
        return out

    def record():
        n = int(sim.params.tstep)
        # the diagnostics asked for here must not refresh the arrays that are written
        kept = [(a, np.array(a)) for a in physical()]
        d = snapshot()
        for a, v in kept:
            a[:] = v
        if comm.Get_rank() == 0:
            tmp = os.path.join(log, 'tmp.npz')
            np.savez(tmp, t=float(sim.params.t), tstep=n, **d)
            os.rename(tmp, os.path.join(log, '%06d.npz' % n))
        return n

    def update(context):
        n = record()
        k = spec.get('kill')
        if k and n == k['step'] and comm.Get_rank() == k['rank'] % comm.Get_size():
            with open('killspectraldns', 'w') as f:
                f.write('')
        if k:
            comm.barrier()
        k = spec.get('crash')
        if k and n == k['step'] and k['when'] == 'update':
            comm.barrier()
            os.kill(os.getpid(), signal.SIGKILL)
    sim.solver.update = update
    k = spec.get('crash')
    if k and k['when'] == 'end':
        inner = sim.solver.end_of_tstep

        def end(context):
            if int(sim.params.tstep) == k['step']:
                comm.barrier()
                os.kill(os.getpid(), signal.SIGKILL)
            return inner(context)
        sim.solver.end_of_tstep = end
    record()
    with np.errstate(all='ignore'):
        sim.sd.solve(sim.solver, c)
    comm.barrier()


if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        main(json.load(f))
