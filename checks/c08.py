"""C08: the same solution, steps, diagnostics and files on any number of processes."""
import os

import numpy as np

from vlib import periodic as P, channel as C, chrun as H, sdns, runner


def gather(comm, sl, shape, arr):
    """Global array from the local parts."""
    arr = np.array(arr)
    lead = arr.shape[:arr.ndim-len(shape)]
    out = np.zeros(lead+tuple(shape), dtype=arr.dtype)
    filled = np.zeros(shape, dtype=int)
    for s, a in comm.allgather((tuple(sl), arr)):
        out[(Ellipsis,)+s] = a
        filled[s] += 1
    assert np.all(filled == 1)
    return out


def files(comm, name):
    """Everything in the output files, on every rank."""
    comm.barrier()
    out = None
    if comm.Get_rank() == 0:
        import h5py
        out = {}
        for suffix in ('_w.h5', '_c.h5'):
            if not os.path.exists(name+suffix):
                continue
            with h5py.File(name+suffix, 'r', driver='core', backing_store=False) as f:
                out.update({suffix+'@'+k: np.array(v) for k, v in f.attrs.items()})
                f.visititems(lambda n, o: out.__setitem__(suffix+':'+n, np.array(o)) if hasattr(o, 'shape') and o.dtype.kind in 'fci' else None)
    return comm.bcast(out, root=0)


def compute(case, rec):
    """Runs the case on the ranks there are; list of dicts of global arrays, one per step."""
    log = []
    extra = dict(write_result=2, checkpoint=3, h5filename='out%d' % case['id'], filemode='w') if case['files'] else {}
    if case['solver'] in C.SOLVERS:
        sim = H.start(case, extra=extra)
        c = sim.context
        from spectralDNS.utilities import dx
        FST = c.FST

        def snapshot():
            v = np.array(sim.solver.get_velocity(**c))
            d = dict(U=gather(sim.comm, FST.local_slice(False), FST.global_shape(False), v))
            d['energy'] = np.array(sim.comm.bcast(dx(v[0]**2+v[1]**2+v[2]**2, FST, axis=sim.axis), root=0))
            div = np.array(sim.solver.get_divergence(**c))
            d['zero:div'] = np.array(sim.comm.allreduce(float(np.max(np.abs(div))) if div.size else 0.0, op=__import__('mpi4py').MPI.MAX))
            if C.is_rb(case['solver']):
                d['phi'] = gather(sim.comm, c.TT.local_slice(False) if 'TT' in c else FST.local_slice(False), FST.global_shape(False), C.temperature(sim))
            return d
    else:
        sim = P.setup(case, extra=extra)
        c = sim.context
        u0 = P.init_field(case, sim.grid)
        if case.get('source'):
            P.source(sim, u0)
        P.put(sim, c.u, u0)
        T = sim.T

        def snapshot():
            d = dict(u=gather(sim.comm, T.local_slice(True), T.global_shape(True), c.u))
            if sim.name != 'MHD':
                d['U'] = gather(sim.comm, T.local_slice(False), T.global_shape(False), sim.solver.get_velocity(**c))
                if hasattr(sim.solver, 'get_curl'):
                    cv = sim.solver.get_curl(**c)
                    d['curl'] = gather(sim.comm, T.local_slice(False), T.global_shape(False), cv)
                if sim.name in ('NS', 'NS2D'):
                    d['p'] = gather(sim.comm, T.local_slice(False), T.global_shape(False), sim.solver.get_pressure(**c))
            return d
    if not case['files']:
        c.hdf5file = C.NoFile()

    def update(context):
        d = snapshot()
        mine = (float(sim.params.t), float(sim.params.dt), int(sim.params.tstep))
        all_ = sim.comm.allgather(mine)
        rec.check(all(x == mine for x in all_), 'ranks disagree', 'time, step size or step number differ between ranks: %r' % (all_,))
        d['t'], d['tstep'] = np.array(mine[0]), np.array(mine[2])
        log.append(d)
        rec.count('steps')
    sim.solver.update = update
    with np.errstate(all='ignore'), sdns.Quiet():
        sim.sd.solve(sim.solver, c)
    rec.check(abs(float(sim.params.dt)-case['dt']) <= 1e-6*case['dt'], 'dt restored', 'dt is %r after the run' % sim.params.dt)
    fl = files(sim.comm, 'out%d' % case['id']) if case['files'] else {}
    return log, fl


def run_case(case, rec):
    log, fl = compute(case, rec)
    if case.get('np', 1) == 1:
        flat = {'%d|%s' % (i, k): v for i, d in enumerate(log) for k, v in d.items()}
        flat.update({'F|'+k: v for k, v in fl.items()})
        np.savez(case['ref'], **flat)
        rec.nontrivial = len(log) > 0
        rec.count('one_process_runs')
        return
    want = np.load(case['ref'])
    rec.seen('config', [case['solver'], case['np'], case.get('decomposition'), case.get('integrator'), case['convection'], case['dealias']])
    n = 1+max(int(k.split('|')[0]) for k in want.files if k[0] != 'F')
    if not rec.check(len(log) == n, 'steps', '%d steps on %d processes, %d on one' % (len(log), case['np'], n)):
        return
    tol = case['tol']
    for i, d in enumerate(log):
        for k, v in d.items():
            w = want['%d|%s' % (i, k)]
            if not np.all(np.isfinite(w)):
                rec.count('outside_domain')
                continue
            what = '%s %s after step %d on %d processes (%s)' % (case['solver'], k, i+1, case['np'], case.get('decomposition', 'slab'))
            if k == 'tstep':
                rec.check(int(v) == int(w), 'tstep', what)
            elif k.startswith('zero:'):
                # rounding only: same size as with one process, or far below the velocity gradient
                rec.close(what, v, w, 1e-9, scale=1.0, sig=k)
            else:
                s = float(np.max(np.abs(w)))
                if k in ('p', 'curl'):      # may vanish
                    m = float(np.max(np.abs(want['%d|U' % i])))
                    s = max(s, m, m*m)
                rec.close(what, v, w, tol, scale=s if s > 0 else 1.0, sig='state:'+k if k in ('u', 'U', 'phi') else k)
    keys = {k[2:] for k in want.files if k[0] == 'F'}
    if case['files']:
        rec.check(keys == set(fl), 'file content', 'datasets on %d processes differ: %r' % (case['np'], sorted(keys ^ set(fl))[:6]))
        for k in sorted(keys & set(fl)):
            w = want['F|'+k]
            s = float(np.max(np.abs(w))) if w.size else 0
            rec.close('%s in the file of %d processes' % (k, case['np']), fl[k], w, tol, scale=max(s, 1e-3), sig='file data')
        rec.count('files_compared')
    rec.nontrivial = True
    rec.sample = dict(steps=n, **rec.maxes)


def cases(rng, count, q):
    out = []
    ints = list(P.INTEGRATORS)
    for i in range(count):
        if i % 5 < 3:
            c = P.random_case(rng)
            c['N'] = [max(8, x) for x in c['N']]
            c['mask_nyquist'] = True
            c['integrator'] = 'BS5_adaptive' if i % 5 == 0 else ints[i//5 % 4]
            c['dt'] = P.stable_dt(c, 0.2)
            c['T'] = c['dt']*rng.choice([3, 4, 3.4])
            c['source'] = rng.random() < 0.4
            if c['integrator'] == 'BS5_adaptive':
                c['TOL'] = rng.choice([1e-4, 1e-6, 1e-8])
                c['T'] = c['dt']*25
                c['dt'] *= rng.choice([0.5, 10])
            c['tol'] = 1e-10
            c['decomposition'] = rng.choice(['slab', 'pencil']) if P.DIM[c['solver']] == 3 else 'slab'
        else:
            c = H.random_case(rng)
            c['solver'] = C.SOLVERS[i//5*2 % 7 if i % 5 == 3 else (i//5*2+1) % 7]
            if C.is_rb(c['solver']):
                c['kappa'], c['force'] = 0.1, 0.0
            else:
                c.pop('kappa', None)
            c['N'] = [rng.choice([16, 18, 24]), rng.choice([8, 10, 12]), rng.choice([8, 10])]
            c['T'] = c['dt']*(rng.choice([2, 3, 4])+0.3)
            c['tol'] = 1e-9
            c['decomposition'] = rng.choice(['slab', 'pencil'])
        c['files'] = i % 3 == 0
        c['id'] = i
        out.append(c)
    return out


def limit(c, n):
    """Process counts for which every rank gets a part of the mesh, in every alignment."""
    if c['solver'] in C.SOLVERS:
        m = min(c['N'][1], c['N'][2]//2+1) if c['solver'] != 'KMMr' else min(c['N'][1], c['N'][2]//2+1)
    else:
        m = min(min(c['N']), c['N'][-1]//2+1)
    return n <= m or (c['decomposition'] == 'pencil' and n <= 2*m and n % 2 == 0)


def run(check, rng):
    q = check.tier == 'quick'
    cs = cases(rng, 45 if q else 400, q)
    refs = os.path.join(check.scratch, 'refs')
    os.makedirs(refs)
    for c in cs:
        c['ref'] = os.path.join(refs, '%d.npz' % c['id'])
        c['timeout'] = 60
    check.run_serial(cs, flavour='lu')
    done = {c['id'] for c, r in check.results if os.path.exists(c['ref'])}
    jobs = {}
    for c in cs:
        if c['id'] not in done:
            continue
        ok = [n for n in (2, 3, 4, 5, 6, 7, 8) if limit(c, n)]
        for n in (rng.sample(ok, min(2, len(ok))) if q else ok):
            jobs.setdefault(n, []).append(dict(c, np=n))
    todo = []
    for n, l in jobs.items():
        for i in range(0, len(l), 10):
            todo.append((n, l[i:i+10]))
    check.run_mpi(sorted(todo, key=lambda x: -x[0]), flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C08', 'checks.c08', flavour='lu', rule=(
        'random configurations of all solvers run on one process and on 2-8 processes with slab or pencil decomposition; global state, velocity, '
        'diagnostics, time and step number after every step, agreement between ranks, and all datasets of the output files. '
        'Non-trivial: a multi-process run was compared with its one-process run'),
        assumptions=['process counts that leave no rank without a part of the mesh'])
    raise SystemExit(runner.main(ck, run))
