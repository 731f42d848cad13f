"""C15: wall-normal matrix kernels against dense operators built from polynomials."""
import importlib

import numpy as np
from numpy.polynomial import chebyshev as CH

from vlib import channel as C, chrun as H, runner


def quadrature(N, quad):
    j = np.arange(N)
    if quad == 'GC':
        return np.cos((2*j+1)*np.pi/(2*N)), np.full(N, np.pi/N)
    w = np.full(N, np.pi/(N-1))
    w[0] = w[-1] = np.pi/(2*(N-1))
    return np.cos(j*np.pi/(N-1)), w


def dirichlet(N):
    S = np.zeros((N-2, N))
    for k in range(N-2):
        S[k, k], S[k, k+2] = 1, -1
    return S


def neumann(N):
    S = np.zeros((N-2, N))
    for k in range(N-2):
        S[k, k], S[k, k+2] = 1, -(k/(k+2.))**2
    return S


def biharmonic(N):
    S = np.zeros((N-4, N))
    for k in range(N-4):
        S[k, k], S[k, k+2], S[k, k+4] = 1, -2*(k+2)/(k+3.), (k+1)/(k+3.)
    return S


def deriv(S, m):
    if m == 0:
        return S
    out = np.zeros_like(S)
    for k, row in enumerate(S):
        d = CH.chebder(row, m)
        out[k, :len(d)] = d
    return out


def inner(test, trial, quad, N):
    """(test_j, trial_k) by the N-point quadrature."""
    x, w = quadrature(N, quad)
    V = CH.chebvander(x, N-1)
    return (V@test.T).T@(w[:, None]*(V@trial.T))


def cplx(rng, *s):
    return rng.standard_normal(s)+1j*rng.standard_normal(s)


def along(M, v, axis):
    """Dense M applied along an axis."""
    return np.moveaxis(np.tensordot(M, v, (1, axis)), 0, axis)


def coeff_shape(axis, n1, n2):
    s = [n1, n2]
    s.insert(axis, 1)
    return s


def embed(rng, N, n, axis, n1, n2):
    """Coefficients of a function: n of N entries along axis, the rest zero."""
    s = [n1, n2]
    s.insert(axis, N)
    v = cplx(rng, *s)
    idx = [slice(None)]*3
    idx[axis] = slice(n, None)
    v[tuple(idx)] = 0
    return v


def first(a, n, axis):
    idx = [slice(None)]*3
    idx[axis] = slice(0, n)
    return a[tuple(idx)]


def rest(a, n, axis):
    idx = [slice(None)]*3
    idx[axis] = slice(n, None)
    return a[tuple(idx)]


def run_case(case, rec):
    if case['kind'] == 'run':
        return during_run(case, rec)
    rng = np.random.default_rng(case['seed'])
    M = importlib.import_module('spectralDNS.shen.Matrices')
    LU = importlib.import_module('spectralDNS.shen.LUsolve')
    N, axis, quad, n1, n2 = case['N'], case['axis'], case['quad'], case['n1'], case['n2']
    SD, SB, SN = dirichlet(N), biharmonic(N), neumann(N)
    kind = case['kind']
    rec.seen('config', [kind, N, axis, quad])
    rec.count('calls')
    if kind == 'helmholtz':
        A, B = inner(SD, deriv(SD, 2), quad, N), inner(SD, SD, quad, N)
        beta = rng.standard_normal(coeff_shape(axis, n1, n2))*case['scale']
        alfa = case['alfa'] if case['alfa'] is not None else rng.standard_normal(beta.shape)
        op = M.HelmholtzCoeff(N, alfa, beta, axis, quad)
        v = embed(rng, N, N-2, axis, n1, n2)
        v0 = v.copy()
        c = cplx(rng, *v.shape)
        c = op.matvec(v, c)
        want = alfa*along(A, first(v0, N-2, axis), axis)+beta*along(B, first(v0, N-2, axis), axis)
        rec.close('HelmholtzCoeff N=%d axis=%d %s' % (N, axis, quad), first(c, N-2, axis), want, 1e-11, sig='HelmholtzCoeff')
        rec.check(not np.any(rest(c, N-2, axis)), 'HelmholtzCoeff tail', 'entries beyond the basis are not zero')
        rec.check(np.array_equal(v, v0), 'input', 'HelmholtzCoeff.matvec changes its input')
    elif kind == 'biharmonic':
        S = inner(SB, deriv(SB, 4), quad, N)
        A, B = inner(SB, deriv(SB, 2), quad, N), inner(SB, SB, quad, N)
        sh = coeff_shape(axis, n1, n2)
        alfa, beta = rng.standard_normal(sh), rng.standard_normal(sh)*case['scale']
        a0 = float(rng.standard_normal()*0.1)
        op = M.BiharmonicCoeff(N, a0, alfa, beta, axis, quad)
        v = embed(rng, N, N-4, axis, n1, n2)
        v0 = v.copy()
        c = cplx(rng, *v.shape)
        c = op.matvec(v, c)
        w = first(v0, N-4, axis)
        want = a0*along(S, w, axis)+alfa*along(A, w, axis)+beta*along(B, w, axis)
        rec.close('BiharmonicCoeff N=%d axis=%d %s' % (N, axis, quad), first(c, N-4, axis), want, 1e-10, sig='BiharmonicCoeff')
        rec.check(not np.any(rest(c, N-4, axis)), 'BiharmonicCoeff tail', 'entries beyond the basis are not zero')
        rec.check(np.array_equal(v, v0), 'input', 'BiharmonicCoeff.matvec changes its input')
    elif kind == 'ctd':
        v, w = embed(rng, N, N-2, axis, n1, n2), embed(rng, N, N-2, axis, n1, n2)
        v0, w0 = v.copy(), w.copy()
        bv, bw = cplx(rng, *v.shape), cplx(rng, *v.shape)
        LU.Mult_CTD_3D_ptr(N, v, w, bv, bw, axis)
        D = deriv(SD, 1).T      # Chebyshev coefficients of the derivative
        rec.close('Mult_CTD_3D_ptr v N=%d axis=%d' % (N, axis), bv, along(D, first(v0, N-2, axis), axis), 1e-12, sig='Mult_CTD')
        rec.close('Mult_CTD_3D_ptr w N=%d axis=%d' % (N, axis), bw, along(D, first(w0, N-2, axis), axis), 1e-12, sig='Mult_CTD')
        rec.check(np.array_equal(v, v0) and np.array_equal(w, w0), 'input', 'Mult_CTD_3D_ptr changes its input')
    else:
        Cm = inner(SN, deriv(SD, 1), 'GC', N)[1:]
        Bm = inner(SN, SD, 'GC', N)[1:]
        u, v, w = [cplx(rng, N-2, n1, n2) for _ in range(3)]
        m, n = rng.standard_normal((n1, n2))*3, rng.standard_normal((n1, n2))*3
        b = cplx(rng, N-3, n1, n2)
        keep = [a.copy() for a in (u, v, w)]
        if kind == 'div3':
            LU.Mult_Div_3D(N, m, n, u, v, w, b)
        else:
            for i in range(n1):
                for j in range(n2):
                    bb = np.ascontiguousarray(b[:, i, j])
                    LU.Mult_Div_1D(N, m[i, j], n[i, j], np.ascontiguousarray(u[:, i, j]), np.ascontiguousarray(v[:, i, j]),
                                   np.ascontiguousarray(w[:, i, j]), bb)
                    b[:, i, j] = bb
        want = along(Cm, keep[0], 0)+1j*m*along(Bm, keep[1], 0)+1j*n*along(Bm, keep[2], 0)
        rec.close('Mult_Div %s N=%d' % (kind, N), b, want, 1e-12, sig='Mult_Div')
        rec.check(all(np.array_equal(a, k) for a, k in zip((u, v, w), keep)), 'input', 'Mult_Div changes its input')
    rec.nontrivial = True
    rec.sample = dict(kind=kind, N=N, **rec.maxes)


def during_run(case, rec):
    """The same comparisons on the calls that channel runs make."""
    sim = H.start(case)
    c = sim.context
    todo = []
    nx = case['N'][0]
    ax = sim.axis
    SD, SB = dirichlet(nx), biharmonic(nx)
    q = case['quad']
    mats = {'h': (inner(SD, deriv(SD, 2), q, nx), inner(SD, SD, q, nx)),
            'b': (inner(SB, deriv(SB, 4), q, nx), inner(SB, deriv(SB, 2), q, nx), inner(SB, SB, q, nx))}
    M = importlib.import_module('spectralDNS.shen.Matrices')

    def wrap(cls, key):
        orig = cls.matvec

        def matvec(self, v, out):
            v0 = np.array(v)
            out = orig(self, v, out)
            if len(todo) < 24:
                n = nx-2 if key == 'h' else nx-4
                w = first(v0, n, ax)
                if key == 'h':
                    want = self.alfa*along(mats['h'][0], w, ax)+self.beta*along(mats['h'][1], w, ax)
                else:
                    want = self.a0*along(mats['b'][0], w, ax)+self.alfa*along(mats['b'][1], w, ax)+self.beta*along(mats['b'][2], w, ax)
                todo.append(key)
                rec.count('calls_during_runs')
                rec.close('%s.matvec in a run of %s' % (cls.__name__, case['solver']), first(np.array(out), n, ax), want, 1e-9,
                          sig=cls.__name__)
            return out
        cls.matvec = matvec
        return orig
    a = wrap(M.HelmholtzCoeff, 'h')
    b = wrap(M.BiharmonicCoeff, 'b')
    try:
        H.solve(sim)
    finally:
        M.HelmholtzCoeff.matvec, M.BiharmonicCoeff.matvec = a, b
    rec.nontrivial = len(todo) > 0
    rec.seen('config', ['run', case['solver'], q])


def run(check, rng):
    q = check.tier == 'quick'
    cases = []
    sizes = list(range(8, 21))+[24, 31, 32, 33, 40, 64, 65]+([] if q else [96, 127, 128])
    for N in sizes:
        for kind in ('helmholtz', 'biharmonic', 'ctd', 'div1', 'div3'):
            if kind == 'biharmonic' and N < 16:
                continue    # shenfun's own biharmonic kernels need a dozen modes (see DESIGN.md)
            for axis in ((0, 1, 2) if kind in ('helmholtz', 'biharmonic', 'ctd') else (0,)):
                for rep in range(1 if q else 6):
                    if kind in ('helmholtz', 'biharmonic') and rng.random() < 0.5 and q:
                        quads = [rng.choice(['GC', 'GL'])]
                    else:
                        quads = ['GC', 'GL'] if kind in ('helmholtz', 'biharmonic') else ['GC']
                    for quad in quads:
                        cases.append(dict(kind=kind, N=N, axis=axis, quad=quad, n1=rng.randint(1, 4), n2=rng.randint(1, 4),
                                          seed=rng.randrange(10**6), scale=rng.choice([1.0, 50.0, 1e3]),
                                          alfa=rng.choice([1.0, None, 0.3])))
    for i in range(10 if q else 60):
        c = H.random_case(rng, solvers=('KMM', 'KMMr', 'KMMRK3', 'Coupled', 'KMM_RB'))
        c.update(kind='run', N=[16, 4, 6], dt=0.01, T=0.023)
        cases.append(c)
    check.run_serial(cases, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C15', 'checks.c15', flavour='lu', rule=(
        'every kernel with every size from 8, all axes, both quadratures and random complex vectors and coefficients, against dense operators '
        'made from Chebyshev polynomials and N-point quadrature with NumPy; plus the calls that channel runs make'),
        assumptions=['the bases are Shen\'s Dirichlet, Neumann and biharmonic combinations in their standard normalisation'])
    raise SystemExit(runner.main(ck, run))
