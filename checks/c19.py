"""C19: the C++ program and the short Python program against the package, on the flow they are written for."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vlib import build as B, env as E, launch, periodic as P, runner
from vlib.ref import Grid

TG = dict(nu=0.000625, T=0.1, dt=0.01)      # the parameters written in the programs

# Runs the short program with other values of its parameters; the closing assertion belongs to the shipped ones
WRAP = r'''
import json, os, re, sys
path, par, out = sys.argv[1:4]
par = json.loads(par)
src = open(path).read()
for k, v in par.items():
    src, n = re.subn(r'(?m)^%s = [^\n]*$' % k, '%s = %r' % (k, v), src)
    if n != 1:
        open(out, 'w').write(json.dumps(dict(unknown=k)))
        sys.exit(0)
g = {'__name__': '__main__', '__file__': path}
sys.argv = [path]
failed = None
try:
    exec(compile(src, path, 'exec'), g)
except AssertionError as e:
    failed = repr(e)
import numpy
from mpi4py import MPI
comm = MPI.COMM_WORLD
res = dict(failed=failed)
if isinstance(g.get('U'), numpy.ndarray) and g['U'].ndim == 4:
    res['energy'] = comm.allreduce(0.5*float((g['U']**2).sum()))/par['N']**3
    if comm.Get_rank() == 0 and isinstance(g.get('k'), float):
        res['k'] = float(g['k'])
res['steps'] = g.get('tstep')
if comm.Get_rank() == 0:
    open(out, 'w').write(json.dumps(res))
'''


def package(case, rec):
    """Energies after every step of the package's own solver."""
    c = dict(solver='NS', N=[case['N']]*3, L=[2*np.pi]*3, nu=case['nu'], dt=case['dt'], T=case['T'], integrator='RK4',
             convection='Vortex', dealias='2/3-rule', mask_nyquist=False)
    sim = P.setup(c)
    P.quiet_file(sim)
    X = sim.context.X
    U = sim.context.U
    U[0] = np.sin(X[0])*np.cos(X[1])*np.cos(X[2])
    U[1] = -np.cos(X[0])*np.sin(X[1])*np.cos(X[2])
    U[2] = 0
    U.forward(sim.context.U_hat)
    g = sim.grid
    out = []

    def update(ctx):
        u = g.bck(P.gather(sim, ctx.U_hat))
        out.append(0.5*float((u**2).sum())/case['N']**3)
    sim.solver.update = update
    sim.sd.solve(sim.solver, sim.context)
    return out


def reference(case):
    """Energies after every step of a plain pseudo-spectral method with the truncation of the programs."""
    N, nu, dt = case['N'], case['nu'], case['dt']
    k = np.fft.fftfreq(N, 1./N)
    K = np.array(np.meshgrid(k, k, np.abs(k[:N//2+1]), indexing='ij'))
    K2 = (K**2).sum(axis=0)
    keep = (np.abs(K) < 2./3.*(N//2+1)).all(axis=0)
    ax = (-3, -2, -1)
    fwd, bck = (lambda a: np.fft.rfftn(a, axes=ax)), (lambda a: np.fft.irfftn(a, s=(N,)*3, axes=ax))
    X = np.mgrid[:N, :N, :N]*2*np.pi/N
    u = fwd(np.array([np.sin(X[0])*np.cos(X[1])*np.cos(X[2]), -np.cos(X[0])*np.sin(X[1])*np.cos(X[2]), 0*X[0]]))

    def rhs(v):
        c = fwd(np.cross(bck(v), bck(1j*np.cross(K, v, axis=0)), axis=0))*keep
        c -= K*(K*c).sum(axis=0)/np.where(K2 == 0, 1, K2)
        return c-nu*K2*v
    out = []
    for _ in range(int(round(case['T']/dt))):
        k1 = rhs(u)
        k2 = rhs(u+dt/2*k1)
        k3 = rhs(u+dt/2*k2)
        k4 = rhs(u+dt*k3)
        u = u+dt/6*(k1+2*k2+2*k3+k4)
        out.append(0.5*float((bck(u)**2).sum())/N**3)
    return out


def mpi(n, cmd, d, **env):
    ev = E.base_env(None, env)
    return launch.run(['mpirun', '-np', str(n)]+cmd, env=ev, cwd=d, timeout=240)


def cpp_source(case, d):
    """The program with the parameters of this case, or None where they are not found where they were."""
    with open(os.path.join(E.REPO, 'cpp', 'spectralDNS.cpp')) as f:
        s = f.read()
    for k in ('nu', 'T', 'dt'):
        if case[k] != TG[k]:
            s, n = re.subn(r'(?m)^(\s*)%s = [^;\n]*;' % k, lambda m, k=k: '%s%s = %r;' % (m.group(1), k, case[k]), s)
            if n != 1:
                return None
    p = os.path.join(d, 'prog.cpp')
    with open(p, 'w') as f:
        f.write(s)
    return p


def compile_cpp(case, d, flags):
    src = cpp_source(case, d)
    if src is None:
        return None
    exe = os.path.join(d, 'prog')
    p = subprocess.run(['mpicxx']+flags+[src, '-o', exe, '-lfftw3_mpi', '-lfftw3', '-lm'], env=E.base_env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError('cpp build failed: '+p.stderr[-2000:])
    return exe


def run_case(case, rec):
    d = tempfile.mkdtemp(prefix='c19-')
    try:
        steps = int(round(case['T']/case['dt']))
        want = reference(case) if case['N'] <= 64 else package(case, rec)
        if case['package']:
            # The package truncates at another wavenumber; the two agree where the flow is resolved
            got = package(case, rec)
            if rec.check(len(got) == steps, 'package-steps', 'the package took %d steps, not %d' % (len(got), steps)):
                for i in range(steps):
                    rec.close('package, energy after %d steps' % (i+1), got[i], want[i], case['package'], scale=want[i], sig='package-differs')
        name = 'N=%d' % case['N']
        first = [None]

        def agree(who, got, at):
            if True:
                rec.close('%s, energy after %d steps' % (who, at), got, want[at-1], 1e-12, scale=want[at-1], sig='energy-differs')
            if at == steps:
                if first[0] is None:
                    first[0] = got
                rec.close('%s, last energy' % who, got, first[0], 1e-12, scale=0.125, sig='energy-differs')
            rec.count('energies')
        # the C++ program
        exe = None
        if case['N'] & (case['N']-1) == 0:
            exe = compile_cpp(case, d, case['flags'])
            if exe is None:
                rec.count('parameters_not_found')
        if exe is not None:
            M = case['N'].bit_length()-1
            for n in case['cpp_ranks']:
                p = mpi(n, [exe]+([str(M)] if not case.get('default') else []), d)
                who = 'C++ %s on %d' % (name, n)
                if not rec.check(p.returncode == 0, 'cpp-status', '%s: status %d: %s' % (who, p.returncode, p.stdout[-500:])):
                    continue
                k = [float(x) for x in re.findall(r'(?m)^\s*k\s*=\s*(\S+)', p.stdout)]
                # every second step, then at the end
                at = [i for i in range(2, steps+1, 2)]+[steps]
                if not rec.check(len(k) == len(at), 'cpp-output', '%s: %d energies, not %d' % (who, len(k), len(at))):
                    continue
                for i, e in zip(at, k):
                    agree(who, e, i)
                rec.count('cpp_runs')
                rec.seen('cpp', [case['N'], n, case['flags']])
        # the short program
        path = os.path.join(E.REPO, 'spectralDNS3D_short.py')
        shipped = case['N'] == 64 and all(case[k] == TG[k] for k in TG)
        with open(os.path.join(d, 'wrap.py'), 'w') as f:
            f.write(WRAP)
        for n in case['py_ranks']:
            who = 'short program %s on %d' % (name, n)
            if shipped:
                p = mpi(n, [E.PY, '-B', path], d)
                rec.check(p.returncode == 0, 'short-status', '%s: status %d: %s' % (who, p.returncode, p.stdout[-500:]))
                rec.count('short_runs')
            out = os.path.join(d, 'out%d.json' % n)
            par = dict(N=case['N'], nu=case['nu'], T=case['T'], dt=case['dt'])
            p = mpi(n, [E.PY, '-B', 'wrap.py', path, json.dumps(par), out], d)
            if not rec.check(p.returncode == 0 and os.path.exists(out), 'short-status', '%s: status %d: %s' % (who, p.returncode, p.stdout[-500:])):
                continue
            with open(out) as f:
                r = json.load(f)
            if 'unknown' in r:
                rec.count('parameters_not_found')
                continue
            for key in ('energy', 'k'):
                if key in r:
                    agree(who+' ('+key+')', r[key], steps)
                else:
                    rec.count('no_'+key)
            rec.count('short_runs')
            rec.seen('short', [case['N'], n])
        rec.nontrivial = rec.obs.get('energies', 0) >= 2
        rec.sample = dict(energies=want[-3:], **rec.maxes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(check, rng):
    quick = check.tier == 'quick'
    cases = []

    def add(N, cpp, py, flags=('-O2',), package=0, **kw):
        c = dict(N=N, package=package, cpp_ranks=list(cpp), py_ranks=list(py), flags=list(flags), **dict(TG, **kw))
        c['timeout'] = 600
        cases.append(c)
    add(64, (1, 4) if quick else range(1, 9), (1, 4) if quick else (1, 2, 4, 8), package=1e-12)
    add(32, rng.sample(range(2, 9), 2), rng.sample([1, 2, 4, 8], 2), package=1e-12)
    add(16, rng.sample(range(1, 9), 3), rng.sample([1, 2, 4, 8], 2), T=0.5, dt=0.05)
    add(8, rng.sample(range(1, 9), 3), rng.sample([1, 2, 4, 8], 2), T=0.9, dt=0.1, nu=0.01)
    add(rng.choice([4, 2]), [1, 2], [1, 2], T=0.5, dt=0.1, nu=0.05)
    for N in (12, 20, 18):
        add(N, [], [k for k in (2, 3, 5, 6) if N % k == 0][:2], T=0.35, dt=0.05, nu=rng.choice([0.0, 0.001, 0.02]))
    # stronger nonlinearity: the small scales take part
    add(16, [1, rng.choice([3, 5, 6])], [rng.choice([1, 2, 4])], flags=rng.choice([['-O0'], ['-O3', '-march=native']]), T=4.0, dt=0.1, nu=0.002)
    if not quick:
        for k in range(60):
            N = rng.choice([8, 10, 12, 14, 16, 18, 20, 24, 32, 32, 16, 8])
            dt = rng.choice([0.02, 0.05, 0.1])
            add(N, rng.sample(range(1, 9), 3), rng.sample([k for k in range(1, 9) if N % k == 0], 2), flags=rng.choice([['-O0'], ['-O2'], ['-O3', '-march=native']]),
                T=round(dt*rng.randrange(3, 40), 6), dt=dt, nu=rng.choice([0.0, 1e-3, 0.01, 0.05]))
        add(128, (2, 8), (), default=True)
    check.run_serial(cases, flavour='lu', workers=4)


if __name__ == '__main__':
    ck = runner.Check('C19', 'checks.c19', flavour='lu', rule=(
        'mesh sizes (powers of two for the C++ program), numbers of processes, end times, steps and viscosities; each case runs the package, the '
        'compiled C++ program and the short program under mpirun and compares every energy reported. Non-trivial: at least two energies compared'),
        assumptions=['other parameter values than the shipped ones are put in place of the assignments in a copy of the source'])
    raise SystemExit(runner.main(ck, run))
