"""Independent reference for the periodic equations (NumPy FFTs only, no shenfun).

Spectral arrays use the half-complex layout: u(x) = sum_k u_hat(k) exp(i k.x), the last
axis holding k >= 0 only.
"""
import numpy as np


class Grid(object):
    def __init__(self, N, L, dealias='2/3-rule', dtype=np.float64):
        self.N = tuple(int(n) for n in N)
        self.L = tuple(float(x) for x in L)
        self.d = len(self.N)
        self.dealias = dealias
        self.ax = tuple(range(-self.d, 0))
        ints = [np.fft.fftfreq(n, 1./n) for n in self.N[:-1]]
        ints.append(np.fft.rfftfreq(self.N[-1], 1./self.N[-1]))
        ints = [np.rint(k).astype(int) for k in ints]
        self.ints = [k.reshape([-1 if i == j else 1 for j in range(self.d)]) for i, k in enumerate(ints)]
        self.K = [2*np.pi/self.L[i]*self.ints[i].astype(float) for i in range(self.d)]
        self.sshape = tuple(len(k) for k in ints)
        self.K2 = np.zeros(self.sshape) + sum(k*k for k in self.K)
        self.iK2 = np.where(self.K2 == 0, 0., 1./np.where(self.K2 == 0, 1., self.K2))
        # modes that carry no Nyquist component
        m = np.ones(self.sshape, dtype=bool)
        for i, n in enumerate(self.N):
            if n % 2 == 0:
                m = m & (np.abs(self.ints[i]) != n//2)
        self.nonyq = m
        # modes kept by the 2/3-rule
        m = np.ones(self.sshape, dtype=bool)
        for i, n in enumerate(self.N):
            m = m & (np.abs(self.ints[i]) < n//3)
        self.kept = m
        # weights of the half-complex layout in sums over the full spectrum
        w = np.full(self.N[-1]//2+1, 2.)
        w[0] = 1.
        if self.N[-1] % 2 == 0:
            w[-1] = 1.
        self.w = w
        self.M = self.N if dealias != '3/2-rule' else tuple(int(np.floor(1.5*n)) for n in self.N)

    # -- plain transforms on the N grid
    def fwd(self, u):
        return np.fft.rfftn(u, axes=self.ax)/np.prod(self.N)

    def bck(self, uh):
        return np.fft.irfftn(uh*np.prod(self.N), s=self.N, axes=self.ax)

    def mesh(self):
        xs = [np.arange(n)*(l/n) for n, l in zip(self.N, self.L)]
        return np.meshgrid(*xs, indexing='ij')

    # -- transforms to and from the grid used for products
    def phys(self, uh):
        if self.dealias == '3/2-rule':
            uh = np.where(self.nonyq, uh, 0)
            P = np.zeros(uh.shape[:-self.d] + self.M[:-1] + (self.M[-1]//2+1,), dtype=complex)
            P[self._pad_index(uh.ndim)] = uh
            return np.fft.irfftn(P*np.prod(self.M), s=self.M, axes=self.ax)
        if self.dealias == '2/3-rule':
            uh = np.where(self.kept, uh, 0)
        return self.bck(uh)

    def _pad_index(self, ndim):
        idx = [k.ravel() % m for k, m in zip(self.ints[:-1], self.M[:-1])]
        idx.append(self.ints[-1].ravel())
        ix = np.ix_(*idx)
        return (Ellipsis,) + ix

    def spec(self, u):
        if self.dealias == '3/2-rule':
            F = np.fft.rfftn(u, axes=self.ax)/np.prod(self.M)
            return F[self._pad_index(u.ndim)]
        return self.fwd(u)

    # -- calculus
    def grad(self, f):
        return np.array([1j*k*f for k in self.K])

    def div(self, u):
        return sum(1j*k*c for k, c in zip(self.K, u))

    def curl(self, u):
        K = self.K
        if self.d == 2:
            return 1j*(K[0]*u[1]-K[1]*u[0])
        return 1j*np.array([K[1]*u[2]-K[2]*u[1], K[2]*u[0]-K[0]*u[2], K[0]*u[1]-K[1]*u[0]])

    def project(self, u):
        kd = sum(k*c for k, c in zip(self.K, u))*self.iK2
        return np.array([c-k*kd for k, c in zip(self.K, u)])

    def velocity_from_vorticity(self, w):
        return self.curl(w)*self.iK2

    # -- integrals (mean over the domain)
    def mean_product(self, a, b):
        """mean over the box of a*b for real fields a, b given by their coefficients"""
        return float(np.sum(self.w*(a*np.conj(b)).real))

    def energy(self, u):
        return 0.5*self.mean_product(u, u)

    # -- nonlinear terms (all as they appear on the right-hand side)
    def conv(self, u, form):
        U = self.phys(u)
        d = self.d
        if form == 'Vortex':
            W = self.phys(self.curl(u))
            if d == 2:
                C = np.array([U[1]*W, -U[0]*W])
            else:
                C = np.cross(U, W, axis=0)
            return self.spec(C)
        out = np.zeros(u.shape, dtype=complex)
        if form in ('Standard', 'Skewed'):
            for i in range(d):
                g = self.phys(self.grad(u[i]))
                out[i] += self.spec((U*g).sum(0))
        if form in ('Divergence', 'Skewed'):
            for i in range(d):
                out[i] += self.div(self.spec(U*U[i]))
        return -out*(0.5 if form == 'Skewed' else 1.0)

    def masked(self, f, mask):
        return np.where(self.nonyq, f, 0) if mask else f

    def rhs_ns(self, u, nu, form='Vortex', mask=True, source=0):
        N = self.masked(self.conv(u, form), mask)
        return self.project(N) - nu*self.K2*u + source

    def pressure_hat(self, u, form, mask=True):
        """p with -grad(p) + N divergence free"""
        N = self.masked(self.conv(u, form), mask)
        # p_hat = -i k.N / k^2
        return -1j*sum(k*c for k, c in zip(self.K, N))*self.iK2

    def rhs_vv(self, w, nu, mask=True, source=0):
        U = self.phys(self.velocity_from_vorticity(w))
        W = self.phys(w)
        N = self.curl(self.spec(np.cross(U, W, axis=0)))
        return self.masked(N, mask) - nu*self.K2*w + source

    def rhs_mhd(self, ub, nu, eta, mask=True):
        UB = self.phys(ub)
        U, B = UB[:3], UB[3:]
        out = np.zeros(ub.shape, dtype=complex)
        for i in range(3):
            out[i] = -self.div(self.spec(U*U[i]-B*B[i]))
            out[3+i] = self.div(self.spec(B*U[i]-U*B[i]))
        out = self.masked(out, mask)
        out[:3] = self.project(out[:3]) - nu*self.K2*ub[:3]
        out[3:] -= eta*self.K2*ub[3:]
        return out

    def rhs_bq(self, ur, nu, Ri, Pr, mask=True):
        u, r = ur[:2], ur[2]
        U, R = self.phys(u), self.phys(r)
        N = self.masked(self.conv(u, 'Vortex'), mask)
        q = self.masked(-self.div(self.spec(U*R)), mask)
        f = np.array([N[0], N[1]-Ri*r])
        out = np.zeros(ur.shape, dtype=complex)
        out[:2] = self.project(f) - nu*self.K2*u
        out[2] = q - nu/Pr*self.K2*r
        return out


def random_field(rng, g, ncomp, solenoidal=True, amp=1.0, mean=0.3, kind='full', kcut=None):
    """Coefficients of a random real field without Nyquist content.

    kind: 'full' (white up to the cut), 'smooth' (decaying), 'band' (a few modes)
    """
    for _ in range(20):
        h = _random_field(rng, g, ncomp, solenoidal, amp, mean, kind, kcut)
        if g.energy(h) > 0:
            break
    return h


def _random_field(rng, g, ncomp, solenoidal, amp, mean, kind, kcut):
    u = rng.standard_normal((ncomp,) + g.N)
    h = np.where(g.nonyq, g.fwd(u), 0)
    kk = np.sqrt(sum((k/(0.5*n))**2 for k, n in zip(g.ints, g.N)))
    if kind == 'smooth':
        h = h*np.exp(-6*kk)
    elif kind == 'band':
        n = rng.integers(1, 4)
        keep = np.zeros(g.sshape, dtype=bool)
        tot = np.argwhere(g.nonyq)
        for _ in range(n):
            keep[tuple(tot[rng.integers(len(tot))])] = True
        h = np.where(keep, h, 0)
        h = g.fwd(g.bck(h))
        h = np.where(g.nonyq, h, 0)
    if kcut is not None:
        h = np.where(kk <= kcut, h, 0)
    z = (0,)*g.d
    for c in range(ncomp):
        h[(c,)+z] = 0
    if solenoidal:
        for s in range(0, ncomp, g.d):
            if s + g.d <= ncomp:
                h[s:s+g.d] = g.project(h[s:s+g.d])
    e = np.sqrt(2*g.energy(h))
    if e > 0:
        h *= amp/e
    for c in range(ncomp):
        h[(c,)+z] = mean*amp*rng.standard_normal()
    return h
