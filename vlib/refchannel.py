"""Independent reference for the channel solvers.

Chebyshev collocation (Gauss-Lobatto points, dense matrices) in the wall-normal direction x,
Fourier in y and z; wall-normal velocity / wall-normal vorticity with the pressure eliminated.
Time: Crank-Nicolson for diffusion and second order Adams-Bashforth or the three-stage
Runge-Kutta scheme for the rest.  Written from the equations, shares nothing with shenfun.
Arrays: physical (3, Mx, Ny, Nz); spectral in y, z: (3, Mx, Ny, Nz//2+1).
"""
import numpy as np


def cheb(n):
    """Points x_j = cos(pi j/n), j=0..n, and the differentiation matrix."""
    j = np.arange(n+1)
    x = np.cos(np.pi*j/n)
    c = np.where((j == 0) | (j == n), 2., 1.)*(-1.)**j
    dX = x[:, None]-x[None, :]
    D = np.outer(c, 1/c)/(dX+np.eye(n+1))
    D -= np.diag(D.sum(1))
    return x, D


def interp(xq, x):
    """Matrix that evaluates at xq the polynomial given at the Gauss-Lobatto points x."""
    n = len(x)-1
    w = np.ones(n+1)*(-1.)**np.arange(n+1)
    w[0] *= 0.5
    w[-1] *= 0.5
    d = xq[:, None]-x[None, :]
    hit = np.abs(d) < 1e-14
    d = np.where(hit, 1., d)
    B = w/d
    B /= B.sum(1)[:, None]
    for i in np.where(hit.any(1))[0]:
        B[i] = hit[i].astype(float)
    return B


A3 = (8./15., 5./12., 3./4.)
B3 = (0.0, -17./60., -5./12.)


class Channel(object):
    def __init__(self, Mx, N, L, nu, dt, scheme='AB2', dealias='3/2-rule', mask=True, force=0.0,
                 kappa=None, walls=(1., 0.)):
        self.x, self.D = cheb(Mx-1)
        self.D2 = self.D @ self.D
        self.N = N
        self.L = L
        self.nu, self.dt, self.scheme, self.dealias = nu, dt, scheme, dealias
        self.force = force
        self.kappa = kappa
        self.walls = walls      # temperature at x=-1 and x=+1
        ny, nz = N
        iy = np.rint(np.fft.fftfreq(ny, 1./ny)).astype(int)
        iz = np.arange(nz//2+1)
        self.ky = 2*np.pi/L[0]*iy[:, None].astype(float)
        self.kz = 2*np.pi/L[1]*iz[None, :].astype(float)
        self.k2 = self.ky**2+self.kz**2
        m = np.ones(self.k2.shape, bool)
        if ny % 2 == 0:
            m &= (np.abs(iy) != ny//2)[:, None]
        if nz % 2 == 0:
            m &= (iz != nz//2)[None, :]
        self.nonyq = m
        self.kept = (np.abs(iy) < ny//3)[:, None] & (iz < nz//3)[None, :]
        self.iy, self.iz = iy, iz
        self.mask = mask
        self.lu = {}

    # transforms in y, z
    def fwd(self, u):
        return np.fft.rfft2(u, axes=(-2, -1))/np.prod(self.N)

    def bck(self, uh):
        return np.fft.irfft2(uh*np.prod(self.N), s=self.N, axes=(-2, -1))

    def phys(self, uh):
        if self.dealias == '3/2-rule':
            M = tuple(int(np.floor(1.5*n)) for n in self.N)
            P = np.zeros(uh.shape[:-2]+(M[0], M[1]//2+1), complex)
            P[(Ellipsis,)+np.ix_(self.iy % M[0], self.iz)] = np.where(self.nonyq, uh, 0)
            return np.fft.irfft2(P*np.prod(M), s=M, axes=(-2, -1))
        if self.dealias == '2/3-rule':
            uh = np.where(self.kept, uh, 0)
        return self.bck(uh)

    def spec(self, u):
        if self.dealias == '3/2-rule':
            M = u.shape[-2:]
            F = np.fft.rfft2(u, axes=(-2, -1))/np.prod(M)
            F = F[(Ellipsis,)+np.ix_(self.iy % M[0], self.iz)]
        else:
            F = self.fwd(u)
        return np.where(self.nonyq, F, 0) if self.mask else F

    def dx(self, f):
        return np.tensordot(self.D, f, (1, 0))

    def conv(self, uh):
        """u x curl(u)"""
        ky, kz = 1j*self.ky, 1j*self.kz
        w = np.array([ky*uh[2]-kz*uh[1], kz*uh[0]-self.dx(uh[2]), self.dx(uh[1])-ky*uh[0]])
        return self.spec(np.cross(self.phys(uh), self.phys(w), axis=0))

    def divergence(self, uh):
        return self.dx(uh[0])+1j*self.ky*uh[1]+1j*self.kz*uh[2]

    def heat_flux_div(self, uh, th):
        q = self.spec(self.phys(uh)*self.phys(th)[None])
        return self.dx(q[0])+1j*self.ky*q[1]+1j*self.kz*q[2]

    # implicit solves, one wavenumber at a time
    def helm(self, rhs, coef, bc=(0., 0.)):
        """(1 - coef*(D2-k2)) f = rhs with f given at x=+1 (first) and x=-1 (last) for k=0, else 0"""
        n = len(self.x)
        out = np.zeros_like(rhs)
        for i in range(self.k2.shape[0]):
            for j in range(self.k2.shape[1]):
                key = ('h', coef, self.k2[i, j])
                if key not in self.lu:
                    M = np.eye(n)*(1+coef*self.k2[i, j])-coef*self.D2
                    M[0] = 0
                    M[0, 0] = 1
                    M[-1] = 0
                    M[-1, -1] = 1
                    self.lu[key] = np.linalg.inv(M)
                b = rhs[:, i, j].copy()
                b[0], b[-1] = bc if (i == 0 and j == 0) else (0, 0)
                out[:, i, j] = self.lu[key] @ b
        return out

    def biharm(self, rhs, coef):
        """(1 - coef*L) L u = rhs, u=u'=0 at the walls"""
        n = len(self.x)
        out = np.zeros_like(rhs)
        for i in range(self.k2.shape[0]):
            for j in range(self.k2.shape[1]):
                key = ('b', coef, self.k2[i, j])
                if key not in self.lu:
                    Lp = self.D2-self.k2[i, j]*np.eye(n)
                    M = Lp-coef*(Lp @ Lp)
                    M[0] = 0
                    M[0, 0] = 1
                    M[1] = self.D[0]
                    M[-1] = 0
                    M[-1, -1] = 1
                    M[-2] = self.D[-1]
                    self.lu[key] = np.linalg.inv(M)
                b = rhs[:, i, j].copy()
                b[[0, 1, -2, -1]] = 0
                out[:, i, j] = self.lu[key] @ b
        return out

    def lap(self, f):
        return np.tensordot(self.D2, f, (1, 0))-self.k2*f

    def substep(self, uh, H, dt, coef, buoy=None, force=1.0):
        """From u, with H the explicit term (already weighted, integrated over dt=1), coef=nu*dt/2.

        H carries its time weight: u_new = u + H*dt - grad p*dt + coef*(lap u + lap u_new)
        """
        ky, kz = 1j*self.ky, 1j*self.kz
        L0 = self.lap(uh[0])
        hv = -self.k2*H[0]-self.dx(ky*H[1]+kz*H[2])
        if buoy is not None:
            hv = hv-self.k2*buoy
        u = self.biharm(L0+coef*self.lap(L0)+dt*hv, coef)
        g0 = ky*uh[2]-kz*uh[1]
        hg = ky*H[2]-kz*H[1]
        g = self.helm(g0+coef*self.lap(g0)+dt*hg, coef)
        ik2 = np.where(self.k2 == 0, 0, 1/np.where(self.k2 == 0, 1, self.k2))
        f = -self.dx(u)
        v = -1j*(self.ky*f-self.kz*g)*ik2
        w = -1j*(self.kz*f+self.ky*g)*ik2
        new = np.array([u, v, w])
        new[0, :, 0, 0] = 0
        for c in (1, 2):
            q = np.zeros_like(u)
            q[:, 0, 0] = uh[c, :, 0, 0]+coef*(self.D2 @ uh[c, :, 0, 0])+dt*H[c, :, 0, 0]
            if c == 1:
                q[:, 0, 0] += dt*self.force*force
            key = ('h', coef, 0.)
            if key not in self.lu:
                self.helm(q, coef)
            b = q[:, 0, 0]
            b[0] = b[-1] = 0
            new[c, :, 0, 0] = self.lu[key] @ b
        return new

    def run(self, u0, steps, H1=None, th0=None):
        """Returns the spectral states after each step (and temperatures)."""
        uh = u0
        out = []
        th = th0
        th1 = th0
        nu, dt = self.nu, self.dt
        tbc = (self.walls[1], self.walls[0])
        if self.scheme == 'AB2':
            H1 = self.conv(uh) if H1 is None else H1
            for n in range(steps):
                H = self.conv(uh)
                thm = None if th is None else 1.5*th-0.5*th1
                new = self.substep(uh, 1.5*H-0.5*H1, dt, nu*dt/2, thm)
                if th is not None:
                    ck = self.kappa*dt/2
                    N = self.heat_flux_div(uh, thm)
                    r = th+ck*self.lap(th)-dt*N
                    th1, th = th, self.helm(r, ck, tbc)
                uh, H1 = new, H
                out.append((uh, th))
            return out
        for n in range(steps):
            Hold = np.zeros_like(uh)
            Nold = None if th is None else np.zeros_like(th)
            for rk in range(3):
                a, b = A3[rk], B3[rk]
                H = self.conv(uh)
                Hm = a*H+b*Hold
                new = self.substep(uh, Hm, dt, nu*dt*(a+b)/2, None if th is None else (a+b)*th,
                                   force=a+b)
                if th is not None:
                    ck = self.kappa*dt*(a+b)/2
                    N = self.heat_flux_div(uh, th)
                    r = th+ck*self.lap(th)-dt*(a*N+b*Nold)
                    th = self.helm(r, ck, tbc)
                    Nold = N
                uh, Hold = new, H
            out.append((uh, th))
        return out


def random_state(rng, ch, amp=0.3, kmax=2, deg=3, mean=True, thermal=False):
    """Divergence free, no-slip random polynomial/trigonometric field (spectral in y,z)."""
    x = ch.x
    ny, nz = ch.N
    sel = (np.abs(ch.iy) <= kmax)[:, None] & (ch.iz <= kmax)[None, :] & ch.nonyq

    def rnd(base):
        f = 0
        for j in range(deg+1):
            c = np.where(sel, ch.fwd(rng.standard_normal((ny, nz))), 0)
            c[0, 0] = 0
            f = f+(base*np.cos(j*np.arccos(np.clip(x, -1, 1))))[:, None, None]*c[None]
        return f
    u = rnd((1-x**2)**2)
    g = rnd(1-x**2)
    ik2 = np.where(ch.k2 == 0, 0, 1/np.where(ch.k2 == 0, 1, ch.k2))
    f = -ch.dx(u)
    uh = np.array([u, -1j*(ch.ky*f-ch.kz*g)*ik2, -1j*(ch.kz*f+ch.ky*g)*ik2])
    s = np.max(np.abs(ch.bck(uh)))
    if s > 0:
        uh *= amp/s
    if mean:
        uh[1, :, 0, 0] = amp*(1-x**2)*(1+0.3*x)
        uh[2, :, 0, 0] = 0.5*amp*(1-x**2)*x
    th = None
    if thermal:
        th = rnd(1-x**2)
        th *= 0.3/max(1e-300, np.max(np.abs(ch.bck(th))))
        th[:, 0, 0] = ch.walls[0]*0.5*(1-x)+ch.walls[1]*0.5*(1+x)+0.2*(1-x**2)*(1+0.4*x)
    return uh, th
