"""C22: domain integrals of channel fields."""
import importlib

import numpy as np
from numpy.polynomial import chebyshev as cheb, legendre as leg

from vlib import runner, sdns


def build(case):
    """The integral function, and the space named by the case with the configuration it belongs to."""
    from shenfun import FunctionSpace, TensorProductSpace, comm
    p = dict(N=case['N'], L=case['L'], nu=0.01, dt=0.01, T=0.02, decomposition=case.get('decomposition', 'slab'),
             Dquad=case['quad'], Bquad=case['quad'], Nquad=case['quad'], verbose=False)
    slab = case.get('decomposition', 'slab') == 'slab'
    ax = case['axis']
    if case['from'] != 'direct':
        _, config, solver, ctx = sdns.fresh('channel', p, [case['from']])
        T = getattr(ctx, case['space'])
    else:
        sdns.purge()
        sd = importlib.import_module('spectralDNS')
        sd.config.params.N, sd.config.params.L = case['N'], case['L']
        last = max(j for j in range(3) if j != ax)
        B = []
        for i, n in enumerate(case['N']):
            if i != ax:
                B.append(FunctionSpace(n, 'F', dtype='d' if i == last else 'D', domain=(0, case['L'][i])))
            else:
                quad = case['quad'] if case['family'] == 'C' else case['lquad']
                B.append(FunctionSpace(n, case['family'], quad=quad, bc=(0, 0) if case['bc'] else None))
        T = TensorProductSpace(comm, B, axes=(ax,)+tuple(j for j in range(3) if j != ax), slab=slab)
    return importlib.import_module('spectralDNS.utilities').dx, T, comm


def run_case(case, rec):
    from shenfun import Array
    rng = np.random.default_rng(case['seed'])
    dx, T, comm = build(case)
    ax, N, L = case['axis'], case['N'], case['L']
    X = T.local_mesh(True)
    deg = N[ax]-1           # the highest degree the points determine
    for trial in range(case['trials']):
        f = np.zeros(T.shape(False))
        want = big = 0.
        for _ in range(int(rng.integers(1, 4)) if trial else 1):
            n = int(rng.integers(0, deg+1)) if trial > 1 else deg-trial
            c = rng.standard_normal(n+1)
            if rng.random() < 0.5:
                g, ci, val = cheb.chebval(X[ax], c), cheb.chebint(c), cheb.chebval
            else:
                g, ci, val = leg.legval(X[ax], c), leg.legint(c), leg.legval
            mean = val(1, ci)-val(-1, ci)
            area = 1.
            for j in range(3):
                if j == ax:
                    continue
                k = int(rng.integers(0, (N[j]+1)//2)) if trial and rng.random() < 0.6 else 0
                ph, a = rng.uniform(0, 6), rng.uniform(0.5, 2)
                g = g*(a*np.cos(2*np.pi*k*X[j]/L[j]+ph)+(0.3 if k else 0))
                area *= (a*np.cos(ph) if k == 0 else 0.3)*L[j]
            f = f+g
            want += mean*area
            big += np.abs(c).sum()*2*4*L[(ax+1) % 3]*L[(ax+2) % 3]
        u = np.array(f) if case['array'] == 'ndarray' else Array(T)
        u[...] = f
        before = np.array(u, copy=True)
        got = dx(u, T) if ax == 0 and trial % 2 else dx(u, T, axis=ax)
        rec.check(np.array_equal(before, u), 'field-changed', 'the field is changed by dx')
        if comm.Get_rank() == 0:
            rec.close('integral', np.asarray(got), np.asarray(want), 1e-13, scale=big, sig='integral')
            rec.count('integrals')
        else:
            rec.count('other_ranks')
    rec.nontrivial = True
    rec.seen('config', [case['from'], case['quad'], case.get('lquad'), case.get('family'), ax, N[ax] % 2])
    rec.sample = dict(N=N, L=L, **rec.maxes)


def make(rng):
    kind = rng.choice(['KMM', 'KMM', 'KMMr', 'Coupled', 'direct', 'direct', 'direct'])
    ax = 2 if kind == 'KMMr' else 0 if kind != 'direct' else rng.choice([0, 2])
    M = rng.choice([16, 18, 20, 24, 32, 40]) if kind != 'direct' else rng.choice([5, 6, 7, 8, 9, 12, 13, 16, 17, 24, 25, 33])
    if rng.random() < 0.25:
        M = rng.choice([48, 64, 65, 66, 96, 128] + ([129, 161] if kind == 'direct' else []))
    c = dict(seed=rng.randrange(10**6), axis=ax, trials=5)
    c['from'] = kind
    c['quad'] = rng.choice(['GC', 'GL'])
    other = [rng.choice([4, 6, 8, 9, 10, 12]), rng.choice([4, 6, 7, 8, 10, 12])]
    if kind != 'direct':
        other = [max(6, x) for x in other]
    ll = [rng.choice([4.0, 6.283185307179586, 1.0, round(rng.uniform(0.5, 12), 2)]) for _ in range(2)]
    c['N'] = [M]+other if ax == 0 else other+[M]
    c['L'] = [2]+ll if ax == 0 else ll+[2]
    c['array'] = rng.choice(['ndarray', 'Array'])
    if kind == 'direct':
        c['family'] = rng.choice(['C', 'C', 'L'])
        c['bc'] = rng.random() < 0.5
        c['lquad'] = rng.choice(['LG', 'GL'])
    else:
        c['space'] = rng.choice({'KMM': ['FST', 'FSB', 'FCT'], 'KMMr': ['FST', 'FSB', 'FCT'], 'Coupled': ['FST']}[kind])
    return c


def run(check, rng):
    quick = check.tier == 'quick'
    check.run_serial([make(rng) for _ in range(150 if quick else 6000)], flavour='lu')
    mpi = []
    for k in range(6 if quick else 80):
        n = rng.choice([2, 2, 3, 4])
        cs = []
        while len(cs) < 10:
            c = make(rng)
            c['decomposition'] = rng.choice(['slab', 'pencil']) if n == 4 else 'slab'
            if min(c['N'])//2+1 >= n:
                cs.append(c)
        mpi.append((n, cs))
    check.run_mpi(mpi, flavour='lu')


if __name__ == '__main__':
    ck = runner.Check('C22', 'checks.c22', flavour='lu', rule=(
        'random sums of polynomials (up to the degree the points determine) times resolved trigonometric functions, on the spaces of the channel '
        'solvers and on spaces built directly (Chebyshev and Legendre), quadratures, both wall-normal axes, odd and even sizes, several boxes and '
        'process counts; the value is compared with the analytic integral. Non-trivial: all'),
        assumptions=['the value is that of rank 0 (the others get 0)'])
    raise SystemExit(runner.main(ck, run))
