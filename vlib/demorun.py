"""Runs a demo program as it is shipped (display replaced), recording what goes through spectralDNS.solve.

python -m vlib.demorun SPEC.json ; the demo's own exit status, states to <out>-<n>.npz
"""
import json
import os
import runpy
import sys
from unittest.mock import MagicMock

import numpy as np

PARAMS = ('solver', 'nu', 'eta', 'kappa', 'Ri', 'Pr', 'Ra', 'Re', 'dt', 'T', 'dealias', 'convection', 'integrator', 'mask_nyquist', 'eps', 'precision',
          'Kf2', 'kd', 'Re_lam')


class Display(MagicMock):
    pass


def no_display():
    m, plt, cbook = Display(), Display(), Display()
    plt.subplots = lambda *a, **k: (Display(), Display())
    plt.fignum_exists = lambda *a: False
    cbook.mplDeprecation = DeprecationWarning
    m.pyplot, m.cbook, m.cm = plt, cbook, Display()
    sys.modules.update({'matplotlib': m, 'matplotlib.pyplot': plt, 'matplotlib.cbook': cbook, 'matplotlib.cm': m.cm})


def main(spec):
    no_display()
    import spectralDNS
    from .phase import gather
    real = spectralDNS.solve
    runs = [0]

    def state(c, solver):
        comm = solver.comm
        if 'FST' in c:
            d = {}
            d['U'] = gather(comm, c.FST, False, solver.get_velocity(**c))
            if 'phi_hat' in c:
                d['phi'] = gather(comm, c.FST, False, np.array(c.phi_hat.backward(c.phi)))
            return d
        d = dict(u=gather(comm, c.T, True, np.array(c.u)))
        return d

    def solve(solver, context):
        n = runs[0]
        runs[0] += 1
        p = solver.params
        own = solver.update
        first, seen, last = state(context, solver), [], [None]
        source = None
        if 'FST' not in context and context.get('Source') is not None:
            source = gather(solver.comm, context.T, True, np.array(context.Source)) if np.iscomplexobj(context.Source) else None
        t0 = float(p.t)
        keep = spec.get('keep', 0)
        mid = {}

        def update(c):
            own(c)
            seen.append([float(p.t), int(p.tstep)])
            if keep and int(p.tstep) % keep == 0:
                for k, v in state(c, solver).items():
                    mid['mid%d:%s' % (len(seen), k)] = v

        solver.update = update
        failure = None
        try:
            return real(solver, context)
        except BaseException as e:
            failure = e
            raise
        finally:
            solver.update = own
            # the other processes may not know
            last = state(context, solver) if failure is None or solver.comm.Get_size() == 1 else None
            if last is not None and solver.comm.Get_rank() == 0:
                info = {k: p[k] for k in PARAMS if k in p}
                info = {k: (v if isinstance(v, (str, bool, type(None))) else float(v)) for k, v in info.items()}
                info.update(N=[int(x) for x in p.N], L=[float(x) for x in p.L], t0=t0, wall=int(np.argmax([b.__class__.__module__.find('cheb') >= 0 for b in context.FST.bases])) if 'FST' in context else -1)
                d = {'first:'+k: v for k, v in first.items()}
                d.update({'last:'+k: v for k, v in last.items()})
                d.update(mid)
                if source is not None:
                    d['source'] = source
                np.savez(spec['out']+'-%d.npz' % n, info=json.dumps(info), seen=np.array(seen).reshape((-1, 2)), **d)

    spectralDNS.solve = solve
    sys.argv = [spec['demo']]+spec['argv']
    sys.path.insert(0, os.path.dirname(spec['demo']))
    runpy.run_path(spec['demo'], run_name='__main__')


if __name__ == '__main__':
    try:
        main(json.load(open(sys.argv[1])))
    except BaseException as e:
        from mpi4py import MPI
        if MPI.COMM_WORLD.Get_size() > 1 and not (isinstance(e, SystemExit) and not e.code):
            # as python -m mpi4py: not to leave the others waiting
            import traceback
            traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            MPI.COMM_WORLD.Abort(1)
        raise
