"""C23: the demonstration programs reproduce their known solutions."""
import glob
import importlib.util
import json
import os
import re
import subprocess
import sys

import numpy as np

from vlib import env as E, launch, runner, schemes
from vlib.ref import Grid

ROOT = os.path.dirname(os.path.dirname(importlib.util.find_spec('spectralDNS').origin)) if importlib.util.find_spec('spectralDNS') else E.REPO
DEMO = os.path.join(ROOT, 'demo')


# ---- running -------------------------------------------------------------------------------------------
def execute(case, argv=None, name='demo'):
    """Returns (exit status, output, recorded solves)."""
    d = os.path.join(os.environ.get('VERIF_SCRATCH', '.'), name)
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(d, '*')):
        os.remove(f)
    for f in glob.glob(os.path.join(DEMO, '*.txt')):
        with open(f) as g, open(os.path.join(d, os.path.basename(f)), 'w') as h:
            h.write(g.read())
    spec = dict(demo=os.path.join(DEMO, case['demo']+'.py'), argv=[str(a) for a in (argv if argv is not None else case['argv'])],
                out=os.path.join(d, 'rec'), keep=case.get('keep', 0))
    fn = os.path.join(d, 'spec.json')
    with open(fn, 'w') as f:
        json.dump(spec, f)
    np_ = case.get('np', 1)
    cmd = [sys.executable, '-W', 'ignore', '-m', 'vlib.demorun', fn]
    ev = E.unmanaged(os.environ)
    if np_ > 1:
        cmd = ['mpirun', '-np', str(np_)]+cmd
    else:
        E.singleton(ev, d)
    try:
        r = launch.run(cmd, cwd=d, env=ev, timeout=case.get('limit', 200))
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = 'hang', (e.stdout or b'').decode(errors='replace')
    runs = []
    for i in range(len(glob.glob(spec['out']+'-*.npz'))):
        with np.load(spec['out']+'-%d.npz' % i) as z:
            q = {k: z[k] for k in z.files}
        q['info'] = json.loads(str(q['info']))
        runs.append(q)
    return rc, out, runs


def passed(rec, case, rc, out):
    rec.count('demos')
    return rec.check(rc == 0, 'fails', '%s %s: exit status %s: %s' % (case['demo'], ' '.join(str(a) for a in case['argv']), rc, out.strip()[-500:]))


# ---- periodic demos ------------------------------------------------------------------------------------
def grid_of(q):
    i = q['info']
    return Grid(i['N'], i['L'], i['dealias'] or 'None')


def rhs_of(q, g, source=0):
    i = q['info']
    mask = bool(i.get('mask_nyquist', True))
    s = i['solver']
    if s in ('NS', 'NS2D'):
        return lambda u, src=source: g.rhs_ns(u, i['nu'], i['convection'], mask, src)
    if s == 'VV':
        return lambda u, src=source: g.rhs_vv(u, i['nu'], mask, src)
    if s == 'MHD':
        return lambda u, src=source: g.rhs_mhd(u, i['nu'], i['eta'], mask)
    return lambda u, src=source: g.rhs_bq(u, i['nu'], i['Ri'], i['Pr'], mask)


def march(q, g, after=None, source=None):
    """The state at the end from the one at the beginning, with the steps the run took."""
    i, u = q['info'], np.array(q['first:u'], dtype=complex)
    f = rhs_of(q, g)
    t = i['t0']
    for n, (tn, tstep) in enumerate(q['seen']):
        src = 0 if source is None else source(n+1)
        ff = lambda v: f(v, src)
        dt = tn-t
        t = tn
        if i['integrator'] == 'RK4':
            u = schemes.rk4(ff, u, dt)
        elif i['integrator'] == 'ForwardEuler':
            u = schemes.euler(ff, u, dt)
        elif i['integrator'] in ('BS5_adaptive', 'BS5_fixed'):
            u = schemes.bs5(ff, u, dt)[0]
        else:
            raise ValueError(i['integrator'])
        if after is not None:
            u = after(u)
    return u


def energy(g, u):
    return 0.5*float(np.sum(g.w*np.abs(u)**2))


def follows(rec, case, q, after=None, source=None, tol=1e-9):
    i = q['info']
    n = len(q['seen'])
    rec.count('steps', n)
    rec.check(n > 0 and q['seen'][-1][0] > i['T']-i['dt']-1e-8 or i['integrator'] == 'BS5_adaptive', 'end', '%s ends at t = %r after %d steps, T = %r'
              % (case['demo'], q['seen'][-1][0] if n else None, n, i['T']))
    g = grid_of(q)
    want = march(q, g, after, source)
    rec.close(case['demo']+' state', q['last:u'], want, tol, sig='state')
    return g, want


def fourier(g, f):
    return g.fwd(f)


def taylor_green(case, rec):
    rc, out, runs = execute(case)
    if not passed(rec, case, rc, out) and not runs:
        return
    q = runs[0]
    g, want = follows(rec, case, q)
    X = g.mesh()
    U = np.array([np.sin(X[0])*np.cos(X[1])*np.cos(X[2]), -np.cos(X[0])*np.sin(X[1])*np.cos(X[2]), 0*X[0]])
    u0 = g.fwd(U)
    s = q['info']['solver']
    if s == 'VV':
        u0 = g.curl(u0)
    if s == 'MHD':
        B = np.array([np.sin(X[0])*np.sin(X[1])*np.cos(X[2]), np.cos(X[0])*np.cos(X[1])*np.cos(X[2]), 0*X[0]])
        u0 = np.concatenate([u0, g.fwd(B)])
    rec.close('TG initial', q['first:u'], u0, 1e-13, sig='initial')
    # energy only decreases
    vel = g.velocity_from_vorticity if s == 'VV' else (lambda u: u)
    e0, e1 = energy(g, vel(q['first:u'])), energy(g, vel(q['last:u']))
    rec.check(e1 < e0, 'energy', 'the energy of the Taylor-Green flow grows from %r to %r' % (e0, e1))


def vortex_array(case, rec):
    """TG2D: decays without change of shape."""
    rc, out, runs = execute(case)
    if not passed(rec, case, rc, out) and not runs:
        return
    q = runs[0]
    i = q['info']
    n, t = len(q['seen']), q['seen'][-1][0]
    rec.count('steps', n)
    rec.check(abs(t-i['T']) < 1e-8, 'end', 'TG2D ends at t = %r, T = %r' % (t, i['T']))
    g = grid_of(q)
    X = g.mesh()
    u0 = g.fwd(np.array([np.sin(X[0])*np.cos(X[1]), -np.cos(X[0])*np.sin(X[1])]))
    rec.close('TG2D initial', q['first:u'], u0, 1e-13, sig='initial')
    rec.close('TG2D final', q['last:u'], u0*np.exp(-2*i['nu']*t), 1e-9 if i['integrator'] == 'RK4' else 1e-6, sig='state')


def mixing(case, rec):
    """Kelvin-Helmholtz layers, and vortices in two dimensions."""
    rc, out, runs = execute(case)
    if not passed(rec, case, rc, out) and not runs:
        if case['demo'] != 'Vortices2D' or not runs:
            return
    q = runs[0]
    g, want = follows(rec, case, q)
    u = q['last:u']
    d = g.div(u[:2])
    rec.check(np.abs(d).max() < 1e-10*max(1, np.abs(u).max()*max(g.N)), 'divergence', '%s: divergence %.2e' % (case['demo'], np.abs(d).max()))


def vortices(case, rec):
    rc, out, runs = execute(case)
    if not passed(rec, case, rc, out) and not runs:
        return
    q = runs[0]
    src = q.get('source', 0)
    follows(rec, case, q, source=lambda n: src if n <= 3 else 0, tol=1e-8)


def isotropic(case, rec):
    """Forced to constant energy, with both formulations."""
    final = {}
    for s in ('NS', 'VV'):
        argv = case['argv']+[s]
        c = dict(case, argv=argv)
        rc, out, runs = execute(c, name='demo-'+s)
        if not passed(rec, c, rc, out) and not runs:
            continue
        q = runs[0]
        i = q['info']
        g = grid_of(q)
        low = g.K2 <= i['Kf2']**2
        vel = (lambda u: u) if s == 'NS' else g.velocity_from_vorticity
        u0 = vel(q['first:u'])
        rec.check(np.abs(g.div(u0)).max() < 1e-10*np.abs(u0).max()*max(g.N), 'divergence', 'Isotropic %s: initial divergence' % s)
        e0 = energy(g, u0)
        want = i['Re_lam']*(i['nu']*i['kd'])**2/np.sqrt(20/3.)
        rec.check(abs(e0-want) < 1e-9*want, 'target', 'Isotropic %s: energy %r, Re_lam gives %r' % (s, e0, want))
        # what a mode of the forced sphere holds: the model spectrum
        full = [np.abs(k)*np.ones(g.sshape) for k in g.K]

        def force(u):
            v = vel(u)
            v[(Ellipsis,)+(0,)*3] = 0
            e, el = energy(g, v), energy(g, v*low)
            v = v*np.where(low, np.sqrt((e0-(e-el))/el), 1)
            return v if s == 'NS' else g.curl(v)
        follows(rec, c, q, after=force, tol=1e-9)
        u1 = vel(q['last:u'])
        rec.check(abs(energy(g, u1)-e0) < 1e-7*e0, 'energy', 'Isotropic %s: energy %r at the end, %r at the start' % (s, energy(g, u1), e0))
        final[s] = (u0, u1)
    if len(final) == 2:
        rec.close('Isotropic start NS/VV', final['VV'][0], final['NS'][0], 1e-11, sig='formulations')


# ---- channel demos -------------------------------------------------------------------------------------
def cheb(n):
    x = np.cos(np.pi*np.arange(n+1)/n)
    c = np.r_[2, np.ones(n-1), 2]*(-1.)**np.arange(n+1)
    X = np.tile(x, (n+1, 1)).T
    D = np.outer(c, 1/c)/(X-X.T+np.eye(n+1))
    return D-np.diag(D.sum(1)), x


def orr_sommerfeld(Re, alfa, n=110):
    """Phase speeds of the modes of plane Poiseuille flow (collocation, clamped), most unstable first."""
    import scipy.linalg as la
    D, x = cheb(n)
    D2, S = D@D, np.diag(np.r_[0, 1/(1-x[1:-1]**2), 0])
    D4 = (np.diag(1-x**2)@(D2@D2)-8*np.diag(x)@(D2@D)-12*D2)@S
    i = slice(1, -1)
    D2, D4, y = D2[i, i], D4[i, i], x[i]
    I = np.eye(len(y))
    L = D2-alfa**2*I
    A = (D4-2*alfa**2*D2+alfa**4*I)/(1j*alfa*Re)
    # (U-c)(D2-a2)phi - U''phi = (D2-a2)^2 phi/(i a Re)
    M = np.diag(1-y**2)@L+2*I-A
    w = la.eigvals(M, L)
    w = w[np.isfinite(w)]
    return w[np.argsort(-w.imag)]


def cheb_points(n, kind):
    k = np.arange(n)
    return np.cos(np.pi*(2*k+1)/(2*n)) if kind == 'GC' else np.cos(np.pi*k/(n-1))


def waves(case, rec):
    """Orr-Sommerfeld: one complex amplitude, growing and travelling."""
    rc, out, runs = execute(case)
    if not passed(rec, case, rc, out) and not runs:
        return
    for q in runs:
        i = q['info']
        if i['N'][i['wall']] < 64:
            continue
        c = orr_sommerfeld(i['Re'], 1.0)[0]
        U0, U1 = q['first:U'], q['last:U']
        if i['wall'] == 2:
            # (y, z, x) with the stream along the first axis: as the others
            U0, U1 = [np.moveaxis(U, 3, 1)[[2, 0, 1]] for U in (U0, U1)]
        a0, a1 = [np.fft.fft(U[0], axis=1)[:, 1].mean(axis=-1) for U in (U0, U1)]
        n = len(q['seen'])
        dt = q['seen'][-1][0]-i['t0']
        rec.count('steps', n)
        ratio = np.vdot(a0, a1)/np.vdot(a0, a0)
        want = np.exp(-1j*c*dt)
        tol = max(2e-2*(i['dt']**2)*abs(dt), 1e-15/i['eps'])+2e-8
        rec.count('waves')
        rec.maximum('wave error/tolerance', abs(ratio-want)/tol)
        rec.check(abs(ratio-want) <= tol, 'wave', '%s %s: the wave is multiplied by %r in %g, linear theory %r (tolerance %.1e)'
                  % (case['demo'], i['solver'], complex(ratio), dt, complex(want), tol))
        rec.check(np.abs(a1-ratio*a0).max() <= 1e-4*np.abs(a0).max(), 'shape', '%s: the wave changes shape by %.2e'
                  % (case['demo'], np.abs(a1-ratio*a0).max()/np.abs(a0).max()))
        # and the mean flow stays
        m0, m1 = [U[1].mean(axis=(1, 2)) for U in (U0, U1)]
        rec.check(np.abs(m1-m0).max() < 1e-9+10*i['eps']**2, 'mean flow', '%s: the mean flow changes by %.2e' % (case['demo'], np.abs(m1-m0).max()))


def eigen(case, rec):
    rc, out, _ = execute(case)
    if not passed(rec, case, rc, out):
        return
    m = re.search(r'Eigenvalue 1 \(\d+\) = (\S+)', out)
    if rec.check(m is not None, 'eigenvalue', 'no eigenvalue printed: '+out[-200:]):
        got = complex(m.group(1))
        want = orr_sommerfeld(case['Re'], case['alfa'])[0]
        rec.count('eigenvalues')
        rec.maximum('eigenvalue', abs(got-want))
        rec.check(abs(got-want) < 1e-7, 'eigenvalue', 'most unstable wave at Re = %r, alfa = %r: %r, collocation %r' % (case['Re'], case['alfa'], got, want))


def start_up(x, nu, G, t):
    """Flow between plates from rest under a constant force G."""
    u = G/(2*nu)*(1-x**2)
    for k in range(400):
        l = (2*k+1)*np.pi/2
        u = u-2*G*(-1)**k/(nu*l**3)*np.cos(l*x)*np.exp(-nu*l*l*t)
    return u


def laminar(case, rec):
    rc, out, runs = execute(case)
    if not passed(rec, case, rc, out) and not runs:
        return
    q = runs[0]
    i = q['info']
    t = q['seen'][-1][0]
    rec.count('steps', len(q['seen']))
    rec.check(abs(t-i['T']) < 1e-8, 'end', 'LaminarChannel ends at %r, T = %r' % (t, i['T']))
    x = cheb_points(i['N'][0], 'GC')
    U = q['last:U']
    prof = U[1].mean(axis=(1, 2))
    want = start_up(x, i['nu'], 2./i['Re'], t)
    err = np.sqrt(np.mean((prof-want)**2))
    tol = case['tol']
    rec.maximum('profile error/tolerance', err/tol)
    rec.count('profiles')
    rec.check(err <= tol, 'profile', 'LaminarChannel %s: error %.3e of the profile at t = %g (tolerance %.1e)' % (i['solver'], err, t, tol))
    rec.check(np.abs(U-np.array([0*U[1], prof[:, None, None]+0*U[1], 0*U[1]])).max() < 1e-12, 'laminar', 'LaminarChannel: not a parallel flow')
    m = re.search(r'Computed error = (\S+)', out)
    if rec.check(m is not None, 'printed', 'LaminarChannel prints no error'):
        rec.check(abs(float(m.group(1))-err) <= 1e-3*err+1e-12, 'printed', 'LaminarChannel prints the error %s, it is %.6e' % (m.group(1), err))


def benard(Ra, Pr, k, n=48):
    """Growth rate of the leading convection mode with wavenumber k (demo's scaling)."""
    import scipy.linalg as la
    nu, kappa = np.sqrt(Pr/Ra), 1/np.sqrt(Pr*Ra)
    D, x = cheb(n)
    D2, S = D@D, np.diag(np.r_[0, 1/(1-x[1:-1]**2), 0])
    D4 = (np.diag(1-x**2)@(D2@D2)-8*np.diag(x)@(D2@D)-12*D2)@S
    i = slice(1, -1)
    D2, D4 = D2[i, i], D4[i, i]
    I, Z = np.eye(n-1), np.zeros((n-1, n-1))
    # d/dt (D2-k2) w = nu (D2-k2)^2 w - k2 th ; d/dt th = w/2 + kappa (D2-k2) th
    A = np.block([[nu*(D4-2*k*k*D2+k**4*I), -k*k*I], [0.5*I, kappa*(D2-k*k*I)]])
    B = np.block([[D2-k*k*I, Z], [Z, I]])
    w = la.eigvals(A, B)
    w = w[np.isfinite(w)]
    return np.sort(w.real)[::-1][:2]


def convection(case, rec):
    rc, out, runs = execute(case)
    if not passed(rec, case, rc, out) and not runs:
        return
    q = runs[0]
    i = q['info']
    rec.count('steps', len(q['seen']))
    marks = sorted(int(k[3:].split(':')[0]) for k in q if k.startswith('mid') and k.endswith(':phi'))
    marks = [m for m in marks if m >= case['from']]
    a, b = marks[0], marks[-1]
    ta, tb = q['seen'][a-1][0], q['seen'][b-1][0]
    x = cheb_points(i['N'][0], 'GC')
    pa, pb = [np.fft.rfft2(q['mid%d:phi' % m]-0*x[:, None, None], axes=(1, 2)) for m in (a, b)]
    ua, ub = [np.fft.rfft2(q['mid%d:U' % m][0], axes=(1, 2)) for m in (a, b)]
    for ky, kz in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1)):
        k = 2*np.pi*np.hypot(ky/i['L'][1], kz/i['L'][2])
        s = benard(i['Ra'], i['Pr'], k)
        # how much of the next mode is left at the first mark, and the nonlinear terms
        left = np.exp((s[1]-s[0])*ta)
        if left > 1e-5:
            continue
        want = s[0]
        for what, A, B in (('temperature', pa[:, ky, kz], pb[:, ky, kz]), ('velocity', ua[:, ky, kz], ub[:, ky, kz])):
            got = np.log(np.linalg.norm(B)/np.linalg.norm(A))/(tb-ta)
            rec.count('growth_rates')
            rec.maximum('growth rate', abs(got-want))
            rec.check(abs(got-want) <= case['tol'], 'growth', '%s: growth rate %.6f of mode (%d, %d) of the %s, linear theory %.6f'
                      % (i['solver'], got, ky, kz, what, want))
    # the walls keep their temperatures, no mean mass flux through them
    U, phi = q['last:U'], q['last:phi']
    rec.check(np.isfinite(U).all() and np.abs(U[0].mean(axis=(1, 2))).max() < 1e-12, 'mean flow', 'mean flow through the layer')
    c = np.polynomial.chebyshev.chebfit(x, phi.mean(axis=(1, 2)), len(x)-1)
    lo, hi = np.polynomial.chebyshev.chebval([-1, 1], c)
    rec.check(abs(lo-1) < 1e-10 and abs(hi) < 1e-10, 'walls', 'mean temperatures %r and %r at the walls' % (lo, hi))


def flux(case, rec):
    """MKM: the mass flux is held at its value."""
    rc, out, runs = execute(case)
    if not passed(rec, case, rc, out) and not runs:
        return
    q = runs[0]
    i = q['info']
    rec.count('steps', len(q['seen']))
    n = i['N'][0]
    x = cheb_points(n, 'GC')
    w = np.array([0 if k % 2 else 2./(1-k*k) for k in range(n)])
    for key in [k for k in q if k.startswith('mid') and k.endswith(':U')]+['last:U']:
        U = q[key]
        prof = U[1].mean(axis=(1, 2))
        got = float(np.dot(w, np.polynomial.chebyshev.chebfit(x, prof, n-1))*i['L'][1]*i['L'][2])
        rec.count('fluxes')
        rec.maximum('flux', abs(got-618.97))
        rec.check(abs(got-618.97) < 1e-8*619, 'flux', 'MKM %s: flux %r, 618.97 is asked for' % (i['solver'], got))
    rec.check(np.isfinite(q['last:U']).all(), 'finite', 'MKM: not finite')


def program(case, rec):
    """Programs with nothing but their own assertion."""
    rc, out, _ = execute(case)
    passed(rec, case, rc, out)


def parallel(case, rec):
    """The demo on several processes: the states of one."""
    one = execute(dict(case, np=1), name='demo-1')
    more = execute(case, name='demo-n')
    if not passed(rec, dict(case, np=1), one[0], one[1]) or not passed(rec, case, more[0], '%d processes: %s' % (case['np'], more[1])):
        if not (one[2] and more[2]):
            return
    for a, b in zip(one[2], more[2]):
        for k in [k for k in a if k.startswith('last:')]:
            rec.close('%s on %d: %s' % (case['demo'], case['np'], k), b[k], a[k], case.get('tol', 1e-9), sig='processes')
        rec.check(len(a['seen']) == len(b['seen']), 'processes', 'steps')
        rec.count('steps', len(a['seen']))


def run_case(case, rec):
    globals()[case['kind']](case, rec)
    rec.seen('demo', [case['demo'], case.get('np', 1)])
    rec.nontrivial = True
    rec.sample = dict(demo=case['demo'], argv=[str(a) for a in case['argv']], **rec.maxes)


# ---- cases ---------------------------------------------------------------------------------------------
def run(check, rng):
    quick = check.tier == 'quick'
    cases = []

    def add(kind, demo, *argv, **kw):
        cases.append(dict(kind=kind, demo=demo, argv=list(argv), timeout=kw.pop('timeout', 300), **kw))

    DA = ['2/3-rule', '3/2-rule', 'None']
    # as shipped
    add('taylor_green', 'TG', 'NS')
    add('taylor_green', 'TG', 'VV')
    add('taylor_green', 'TGMHD', 'MHD')
    add('vortex_array', 'TG2D', 'NS2D')
    add('waves', 'OrrSommerfeld', rng.choice(['KMM', 'KMMRK3']))
    add('waves', 'OrrSommerfeldr', 'KMMr')
    add('laminar', 'LaminarChannel', rng.choice(['KMM', 'KMMRK3']), tol=1e-6)
    add('program', 'NS_shenfun')
    add('eigen', 'OrrSommerfeld_shen', '--verbose', Re=8000., alfa=1.)
    for i in range(1 if quick else 8):
        for s, f in (('NS', ['Vortex', 'Standard', 'Divergence', 'Skewed']), ('VV', ['Vortex'])):
            add('taylor_green', 'TG', '--convection', rng.choice(f), '--dealias', rng.choice(DA), s)
        add('vortex_array', 'TG2D', '--nu', rng.choice([0.02, 0.005]), '--dt', rng.choice([0.02, 0.05]), '--T', rng.choice([2, 3]),
            '--M', rng.choice([4, 5]), rng.choice([4, 5]), '--integrator', rng.choice(['RK4', 'BS5_fixed']), '--dealias', rng.choice(DA), 'NS2D')
        add('mixing', 'KelvinHelmholtz', '--M', 5, rng.choice([5, 6]), '--T', 0.14, '--dealias', rng.choice(DA), '--plot_result', rng.choice([-1, 5]), '--compute_energy', 5, 'NS2D')
        add('mixing', 'KelvinHelmoltzBoussinesq', '--M', 5, rng.choice([5, 6]), '--T', 0.03, '--dealias', rng.choice(DA), 'Bq2D')
        # noise has the modes at the Nyquist frequency, that only the 2/3-rule takes out of the products
        init = rng.choice(['random', 'vortex'])
        add('vortices', 'Vortices', '--M', 4, rng.choice([4, 5]), rng.choice([4, 5]), '--T', 0.08, '--init', init, '--dealias', rng.choice(DA) if init == 'vortex' else '2/3-rule', 'VV')
        n = rng.choice([12, 16, 18])
        add('isotropic', 'Isotropic', '--N', n, n, rng.choice([12, 16]), '--T', 0.02, '--compute_energy', 4, '--compute_spectrum', 5, '--dealias', rng.choice(DA))
        for s in ('KMM', 'KMMRK3') if quick else ('KMM', 'KMMRK3', 'Coupled', 'CoupledRK3'):
            add('waves', 'OrrSommerfeld', '--M', rng.choice([6, 7]) if 'KMM' in s else 6, rng.choice([3, 4]), 2, '--dt', rng.choice([0.002, 0.005]), '--T', 0.1 if 'KMM' in s else 0.02,
                '--convection', rng.choice(['Vortex', 'Standard', 'Divergence', 'Skew']), '--dealias', rng.choice(['None', '3/2-rule', '2/3-rule']), s, limit=280)
            add('laminar', 'LaminarChannel', '--M', rng.choice([5, 6]), 3, 2, '--T', rng.choice([2, 5]), '--dt', 0.1, s, tol=2e-5, limit=280)
        add('waves', 'OrrSommerfeldr', '--M', rng.choice([3, 4]), 2, 6, '--dt', rng.choice([0.002, 0.005]), '--T', 0.1, 'KMMr')
        add('waves', 'OrrSommerfeldr' if rng.random() < 0.5 else 'OrrSommerfeld', rng.choice(['--eps_refinement_test', '--spatial_refinement_test']), 1, 'KMM')
        cases[-1]['argv'][-1] = 'KMMr' if cases[-1]['demo'].endswith('r') else 'KMM'
        al = round(rng.uniform(0.6, 1.2), 3)
        Re = round(rng.uniform(2000, 12000))
        add('eigen', 'OrrSommerfeld_shen', '--verbose', '--Re', Re, '--alfa', al, '--quad', rng.choice(['GC', 'GL']), '--N', rng.choice([100, 120]), Re=Re, alfa=al)
        for s in ('KMM_RB', 'KMMRK3_RB'):
            Ra = rng.choice([50., 120., 180., 250.])
            add('convection', 'RayleighBenard', '--M', 5, 3, 3, '--Ra', Ra, '--Pr', rng.choice([0.7, 1.0, 2.0]), '--dt', 0.02, '--T', 12, '--plot_result', -1,
                '--sample_stats', 100, '--compute_energy', 100, s, keep=100, tol=2e-3, limit=280, **{'from': 400})
        add('flux', 'MKM', '--M', 5, 4, 3, '--T', 0.005, '--plot_result', -1, '--sample_stats', 5, '--compute_energy', 5, rng.choice(['KMM', 'KMMRK3']), keep=2)
        more = [('TG', ['--M', 4, 4, 4, '--ntol', 3, rng.choice(['NS', 'VV'])]), ('TG2D', ['--T', 0.5, '--M', 4, 4, 'NS2D']), ('TGMHD', ['MHD']),
                ('OrrSommerfeld', ['--M', 5, 3, 2, rng.choice(['KMM', 'KMMRK3'])]), ('LaminarChannel', ['--M', 5, 3, 2, '--T', 3, 'KMM']),
                ('OrrSommerfeldr', ['--M', 3, 2, 5, 'KMMr']), ('KelvinHelmholtz', ['--M', 5, 5, '--T', 0.1, 'NS2D']),
                ('KelvinHelmoltzBoussinesq', ['--M', 5, 5, '--T', 0.02, 'Bq2D']),
                ('Vortices', ['--M', 4, 4, 4, '--T', 0.05, '--init', 'vortex', 'VV'])]
        for d, a in rng.sample(more, 4) if quick else more:
            add('parallel', d, *a, np=2 if d != 'TG' else rng.choice([2, 4]), tol=1e-8 if d.startswith('Orr') else 1e-10)
        for c in cases:
            # the ones with noise, that of each process its own
            if c['kind'] in ('flux', 'convection', 'isotropic') and rng.random() < 0.3:
                c['np'] = 2
    if not quick:
        add('mixing', 'Vortices2D', '--T', 2, '--write_result', 100, 'NS2D')
    check.run_serial(cases, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C23', 'checks.c23', flavour='lu', rule=(
        'the programs of demo/ run as __main__ (plots replaced), as shipped and with other sizes, solvers, forms, dealiasing and processes; states at the '
        'start, on the way and at the end recorded around spectralDNS.solve. Non-trivial: every run'),
        assumptions=['matplotlib replaced by a stand-in', 'not run: refinement_test (a solver that is gone)', 'Vortices2D only against the reference integration: its data file is 1e-5 off'])
    raise SystemExit(runner.main(ck, run))
